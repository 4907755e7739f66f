// Included first with the sanitizers: FLINT's own inline functions compute
// (ulong) -x for x = LONG_MIN, which is FLINT's business and not what is
// checked here. The code of libexactreal itself is not affected.
#pragma GCC push_options
#pragma GCC optimize("wrapv")
#include <flint/fmpz.h>
#include <flint/fmpz_extras.h>
#pragma GCC pop_options
