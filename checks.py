"""What each check explores: property -> parts (harness, variant, suites[, "thorough"]), bounds, assumptions."""
import os


VARIANTS = {
    "plain": {"flags": ["-O1", "-ftrivial-auto-var-init=pattern"]},
    "asan": {"flags": ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/sanflint.hpp"), "-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DMC_SANITIZED"]},
    # every memory access of the library is a call into harness/tsanrt.cc
    "sched": {"flags": ["-O1"], "lib_flags": ["-fsanitize=thread"], "extra": ["tsanrt.cc"], "extra_flags": ["-O1"]},
}

SHIM = "the header-only submodules missing from this checkout (unique-factory, hash-combine, spimpl, slimbloomfilter, ...) are replaced by stand-ins in /verif/shim with the same interface and semantics"
FLINT = "the reference model is exact rational arithmetic with GMP; only the raw words of arf_t, arb_t and mag_t are read through FLINT"
SELF = "the true value of a constrained random number is taken from a 10000 bit approximation of a freshly made copy of it; of a random number, from an independent implementation of its generator"

CHECKS = {}


def check(id, parts, quick, thorough, assumptions=(), **kw):
    # the thorough tier executes the same space once more with the address and undefined behaviour sanitizers
    san = [(h, "asan", s, "thorough") for h, v, s in parts if v == "plain" and kw.get("sanitized", True)]
    kw.pop("sanitized", None)
    CHECKS[id] = {"parts": parts + san, "bounds": {"quick": quick, "thorough": thorough}, "assumptions": [SHIM, *assumptions], **kw}


check("C01", [("arf", "plain", ["construct_mantissa_exponent", "construct_string", "construct_integer", "construct_double", "special_values", "random"])],
      "mantissas: 0, ±1..64, ±(2^k+d) for 20 word and precision borders k and |d|≤3, halfway cases of the rounding to double, two long ones, each with 93 exponents around every binade border of a double and 14 extreme ones (up to ±2^63); digit strings of these in all 35 bases with 10 exponents, and all binary strings of up to 14 digits; all int and long up to 2000, 2^k+d, and the extremes; random numbers from 336 states; doubles: all 2048 exponents × 227 mantissas × both signs",
      "everything once more with the address and undefined behaviour sanitizers", [FLINT], deep=True)
check("C02", [("arf", "plain", ["order_pairs", "order_integers", "not_a_number"])],
      "all pairs of 1151 numbers (small, word borders ±1, extreme exponents, infinities), each in 8 storage histories (fresh, copied/moved/swapped over long numbers, left over from a cancellation, shifted, negated); all pairs of 62 machine integers with the numbers next to them; NaN with all kinds of numbers",
      "once more with the sanitizers", [FLINT], deep=True)
check("C03", [("arf", "plain", ["register_histories", "print"])],
      "all sequences of up to 4 operations (assign, move, swap, shift, negate, aliasing included) on two registers from 30 start values, states merged by value; printing of all mantissas × exponents of C01",
      "sequences of up to 5 operations, of up to 4 with the sanitizers", [FLINT])
check("C04", [("arf_yap", "plain", [])],
      "104 expression shapes up to depth 3 with every placement of annotations that the library accepts, 7 destinations (new, each operand, moved), all operand triples from small, special and wide alphabets × precisions × rounding modes; in-place sequences up to depth 4",
      "larger alphabets, 6 pairs of precisions more, in-place sequences up to depth 5", [FLINT])
check("C05", [("arb", "plain", ["construct_integers", "assign_doubles", "construct_rationals", "construct_number_field", "construct_interval", "construct_string", "constants"])],
      "every C++ integer type at 0, ±1, its extremes and 2^k+d; doubles over all binade borders; 4045 pairs of rationals and precisions; 2178 of elements of four number fields and precisions; 55635 intervals; 193011 decimal strings × precisions, and every way to write 90 decimal numbers with and without a sign, a point and an exponent; all constants",
      "once more with the sanitizers", [FLINT], deep=True)
check("C06", [("arb", "plain", ["compare_balls", "compare_integers", "compare_rationals"])],
      "all pairs of 410 balls (exact, touching, nested, disjoint, infinite, indeterminate); balls × all integer types at borders; balls × rationals at and around the ends of every ball (81641 pairs)",
      "once more with the sanitizers", [FLINT], deep=True)
check("C07", [("arb", "plain", ["observers", "register_histories", "print", "random"])],
      "437 balls; all sequences of up to 6 value operations on two registers (states merged by value); printing of 410 balls in several widths; random balls from 336 states", "once more with the sanitizers", [FLINT], deep=True)
check("C08", [("arb_yap", "plain", [])],
      "105 expression shapes up to depth 3 with every accepted placement of annotations, 7 destinations, operand triples over small, wide and special balls × pairs of precisions; in-place sequences up to depth 4",
      "larger alphabets, sequences up to depth 5", [FLINT])
check("C09", [("real", "plain", ["single_queries", "query_pairs", "query_sweeps", "balls", "product_queries", "powers", "huge"])],
      "1905 numbers of all kinds × ~90 precisions on fresh objects; all ordered pairs of 13 queries on every fifth of them; sweeps over 300 precisions in 4 orders (past the limits of the caches); balls at 1..400 bits around and next to each number; products of degree 2..6; powers of 240 numbers (and of 8 whose approximations come close to the permitted error) with exponents up to 85 at all precisions 0..64; powers up to the 9th of numbers between 2^LONG_MIN and 2^LONG_MAX, compared with the same at ordinary magnitude",
      "400 seeds, 12 seeds per interval, all numbers for pairs and sweeps, 40 seeds per product, 4000 numbers with powers up to the 341st", [SELF], sanitized=False)
check("C10", [("real", "plain", ["seeds", "random_intervals", "random_doubles"])],
      "seeds 0..2^15, around every power of two and the last 64; all intervals with ends on a grid of 73 numbers, extreme and degenerate ones, 22 widths × 11 positions next to powers of two × 6 seeds; unbounded intervals; 280 doubles at all borders × 24 seeds",
      "2^19 seeds; 60 seeds per interval, 200 per double", [SELF])
check("C11", [("monomials", "plain", ["words", "multiplication_table", "division_table", "large_powers", "degree_overflow", "rationals"]), ("real", "plain", ["same_seed"])],
      "every order and grouping of all words of up to 7 letters over 4 letters; all products of two monomials of degree ≤40 (1 variable), 9 (2), 5 (3), 4 (4), 2 (6), and all quotients; powers up to 2^29 by squaring; all products of two monomials with exponents at the limits of machine types up to INT_MAX (which have to throw when the degree is larger); rationals with numerators and denominators up to 12; 750 ways to make a random number from each of 8 seeds, alone and with all others alive in several orders",
      "words of up to 8 letters, degrees ≤80, 12, 7, 5, 3, rationals up to 20, 40 seeds", [SELF])
check("C12", [("real", "plain", ["order_pairs", "order_others"])],
      "all pairs of 317 numbers of all kinds, among them ones that differ by 2^-5000, and of these with Arfs, GMP integers, rationals and machine integers at, next to and extremely close to their values, infinities and NaN",
      "more numbers", [SELF])
check("C13", [("monomials", "plain", ["order", "order_large"])],
      "all pairs and triples of monomials of degree ≤9 in 2 variables, 6 in 3, 5 in 4, 3 in 5, 2 in 8, for all orders of creation (and destruction) of the generators (rotations for more than 4); all pairs of monomials in 2 or 3 variables whose exponents are at the limits of machine types, up to INT_MAX",
      "degree ≤14, 8, 6, 5, 3")
check("C14", [("module", "plain", ["unique_*", "elements_*", "spans_*", "module_histories_*"])],
      "all sets of up to 4 of the generators {rationals, a, b, ab, a², ...} in all orders over Z, Q and four number fields; all pairs of sets of up to 2 for span and submodule; all histories of up to 5 creations, destructions and cache flushes (over number fields up to 4, with refinements of the field, another field and the field written in another way)",
      "sets of up to 5, spans of sets of up to 3, histories of up to 6")
check("C15", [("element_arith", "plain", ["pairs_*", "programs_*"])],
      "all pairs (sums, differences, products, products with generators, aliasing) of 193 elements of rank ≤3 over Z and Q and 327 over number fields; all programs of up to 4 in-place operations on two registers, cap on the degree 6",
      "more coefficients, programs of up to 5 operations")
check("C16", [("element_arith", "plain", ["scale_*"])],
      "elements of rank ≤3 with all coefficient tuples from an alphabet × every C++ integer type at its extremes, GMP integers, rationals and ring elements, × and ÷", "once more with the sanitizers", deep=True)
check("C17", [("element_value", "plain", ["compare_*"])],
      "all pairs of ~300-880 elements per ring with values of all magnitudes, equal in different modules, or as close as 2^-1000 (convergents, truncations, units of number fields); with all integer types, rationals and generators at and around their values", "denser family, 15 instead of 7 degrees of closeness", [SELF])
check("C18", [("element_arith", "plain", ["divide_*"])],
      "all quotients of two of 193 (327) elements and all quotients p·q/q, (p·q+r)/q for families of p, q and remainders that cancel late or in another variable; all x^i + k y^j with i, j ≤ 12 by all x^i + k y^j, x y^j + k, three-term divisors with i, j ≤ 5 and geometric sums of up to 7 terms, and powers of these up to degree 12", "more coefficients")
check("C19", [("element_value", "plain", ["floor_*", "floordiv_*"])],
      "the elements of C17 for floor and ceil; floordiv of 98-235 numerators by all divisors, exact multiples and values within 2^-1000 of an integer multiple included", "denser family", [SELF])
check("C20", [("element_value", "plain", ["convert_*"])],
      "the elements of C17, all coefficient tuples, ties of the doubles and ends of their range, subnormal double rounding; 8 precisions for arb", "16 precisions, denser family", [SELF])
check("C25", [("element_value", "plain", ["print_*"])],
      "the elements of C20, their modules, and all monomials of degree ≤4", "denser family, degree ≤6")
check("C21", [("module", "plain", ["moves_*"])],
      "all sequences of up to 4 promotions, simplifications and coefficient extensions from 243 (729) elements through all modules with up to 3 generators", "sequences of up to 5")
check("C22", [("serial", "plain", [])],
      "JSON and portable binary: 1460 Arfs, 296 Arbs, 56 real numbers of every kind and elements over Z, Q and number fields, loaded while alive, after destruction, in another process with 12 × 12 orders of creation of the generators, and as collections with shared and null objects; two files loaded in either order; all histories of up to 5 operations (make, drop, write alone, in a module or in an element, for 2 variables and 7 pairs of values) while an archive is open",
      "histories of up to 6 operations, more numbers and elements", sanitized=False)
check("C24", [("ring", "plain", [])],
      "all coefficients of a bounded size in Z, Q, Q(√2), Q(-√2), Q(φ) and Q(∛2) × all argument types at their borders; coefficients beyond the range of double (up to 2^±5000, and θ-⌊θ⌋ to the 1024th power) and extremely close to integers; all pairs of rings", "larger coefficients")
check("C26", [("monomials", "plain", ["histories"]), ("real", "plain", ["query_sweeps", "replaced"])],
      "all histories of up to 5 operations that create or destroy one of 7 numbers and 2 modules or flush every cache of the library (at most once), each checked for every way to write the products; sweeps over 300 precisions in 4 orders against fresh objects; all pairs of 7 kinds of numbers where one takes the place of the other in memory × queries of 7 kinds × 5 precisions up to 5000 bits", "histories of up to 6 operations with up to 2 flushes", sanitized=False)
check("C27", [("cppyy", "plain", [])],
      "all pairs of operands of 17 type combinations from small alphabets for each helper function; serialization round trips; 49 pairs of floats with all expressions; 12 floats, 36 balls with all int, long, unsigned long and double at their limits on either side", "once more with the sanitizers", deep=True)
check("C23", [("seed", "sched", [])],
      "2^27 sequential seeds; 87720 explicit values; all interleavings of up to 6 threads/seeds in 11 shapes at every memory access of the library; threads that create numbers through all pairs of 5 factories, preemption bound 1",
      "2^32 seeds, 6 shapes more, preemption bound 2",
      technique="stateless exploration of all thread interleavings of the real code under a controlled scheduler")
check("C28", [("leak", "plain", [])],
      "898 computations that cover the whole interface (every kind of number, new and kept alive, × every query; long and short mantissas; operations that throw; malformed input; numbers of all sizes around a machine word; archives with one wrong character), each repeated until a period adds no memory, at most 32764 times",
      "and each alternating with each of 9 computations that fill or flush caches", ["a leak takes at least 8 bytes per repetition"], sanitized=False)

NOT_APPLICABLE = {}
