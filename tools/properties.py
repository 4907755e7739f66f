#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["libexactreal/" + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "An Arf is exactly the number it was made from",
     "An Arf created or assigned from an int, a long, a double (infinities and NaN included), a GMP integer with an exponent, or a digit string in any base from 2 to 36 with an exponent has exactly that value. Reading it back is exact too: mantissa (odd, or zero) times two to the exponent is the value, floor and ceil are the integers next to it, logb is the floor of its logarithm to base two, the conversion to double gives the nearest double (ties to even, with gradual underflow and overflow to infinity), and negation, abs, copies, moves and swap give exactly the values they name without changing what they read; randtest gives the number of at most the given precision that the state determines.",
     ["inputs"], "every integer, double, mantissa, base and exponent, up to the extremes of the exponent type",
     "The tests try a handful of small values; conversions go wrong at binade borders, halfway cases, subnormals, word-size borders and extreme exponents only.",
     ["exact-real/arf.hpp", "src/arf.cc"], [("Arf constructors, casts and accessors on top of FLINT's arf_t", "src/arf.cc")],
     ["Arf::Arf", "Arf::operator double", "Arf::mantissa", "Arf::exponent", "Arf::floor", "Arf::ceil", "Arf::logb"], [("t", "the wrapped arf_t", "exact-real/arf.hpp")])
prop("C02", "Comparisons of Arfs are the order of the numbers",
     "All six relational operators between two Arfs, and between an Arf and an int or a long in either order, decide exactly how the two numbers compare, including infinities, signs, extreme exponents and numbers that differ in the last bit only. NaN is not smaller than, larger than or equal to any number. Comparing changes neither operand, and equal Arfs have equal hashes.",
     ["inputs"], "every pair of Arfs and of an Arf and a machine integer",
     "The tests compare a few small numbers; mistakes for negative numbers, mixed signs, values next to an integer, or the generated operators with swapped operands stay unseen.",
     ["exact-real/arf.hpp", "src/arf.cc"], [("relational operators and boost::totally_ordered", "src/arf.cc, exact-real/arf.hpp")], ["Arf::operator<", "Arf::operator==", "std::hash<Arf>"])
prop("C03", "Arfs keep their values in every history of operations; printing is exact",
     "After any sequence of assignments, moves, swaps, shifts by any number of bits (positive, negative, extreme; in place or not) and negations, on variables that may be aliases of each other, every Arf has the exact value that the sequence describes and unrelated Arfs keep theirs. Printing shows the nearest double and, unless the number is an integer which that double equals, also the exact value as mantissa and exponent to base two; special values print as 0, +∞, -∞ and NaN; the format of the stream stays as it was.",
     ["histories", "inputs"], "every sequence of operations, every aliasing, and every value printed",
     "The tests run single operations from fresh values; aliasing, reuse of moved-from variables and extreme shifts appear in combinations only.",
     ["exact-real/arf.hpp", "src/arf.cc"], [("assignment, swap and shifts on the wrapped arf_t", "src/arf.cc"), ("operator<<", "src/arf.cc")], ["Arf::operator=", "Arf::operator<<=", "Arf::operator>>=", "swap", "operator<<"])
prop("C04", "Arf expressions round every operation exactly as requested",
     "A lazily evaluated expression of Arfs and numbers with +, -, *, / and negation gives the same result as performing its operations one after the other, each one correctly rounded to the precision and in the direction given by the closest enclosing (precision, rounding) annotation. This holds for every nesting, for +=, -=, *= and /= and when the target also appears as an operand, and it never changes the operands.",
     ["programs", "inputs"], "every expression tree, every placement of annotations, every target aliasing, every operand, precision and rounding mode",
     "The expressions are evaluated by compile-time tree transformations with special cases for the shapes of the operands; the tests check a few shapes with operands for which rounding does not matter.",
     ["exact-real/yap/arf.hpp", "exact-real/yap/arf_assign_transformation.hpp", "exact-real/yap/assign_transformation.hpp", "exact-real/yap/prec_transformation.hpp", "exact-real/yap/round_transformation.hpp", "exact-real/yap/params_transformation.hpp", "exact-real/yap/arf_expr.hpp", "exact-real/yap/prec_expr.hpp", "exact-real/yap/round_expr.hpp"],
     [("tree transformations that assign to a target", "exact-real/yap/*_transformation.hpp")], ["Arf::Arf(ArfExpr)", "Arf::operator=(ArfExpr)", "Arf::operator+=, -=, *=, /="])
prop("C05", "A ball contains the number it was made from",
     "An Arb made from a rational, a number field element, an interval or a decimal string contains that number or all of that interval, and is as narrow as the requested precision allows; an Arb made or assigned from an integer of any C++ type, a GMP integer, an Arf or (by assignment) a double is exactly that number. The named constants (zero, one, infinities, unit interval, ...) are the balls they are documented to be.",
     ["inputs"], "every integer type and value, rational, algebraic number, interval, string and precision",
     "The tests sample few inputs; wrong enclosures show for long fractions, for word-size borders, for cancellation in number fields and for low precisions.",
     ["exact-real/arb.hpp", "src/arb.cc"], [("Arb constructors", "src/arb.cc")], ["Arb::Arb", "Arb::operator="])
prop("C06", "Ball comparisons are true or false only if they are for all points",
     "Each of ==, !=, <, >, <=, >= between a ball and another ball, an integer of any type or a rational returns true only if it holds for every choice of points in the operands, false only if it holds for none, and nothing otherwise; and when the balls decide the relation (for a rational: still after a negligible widening of the ball) it does return that answer. == and != are negations of each other, as are < and >=, > and <=; comparing changes no operand.",
     ["inputs"], "every pair of balls, including touching, exact, infinite and indeterminate ones, and every integer and rational",
     "The tests compare a few balls; touching balls, equal exact balls, infinite balls and integers of the eight types at their limits need separate thought in each of the eighteen operators.",
     ["exact-real/arb.hpp", "src/arb.cc"], [("tri-state comparison operators", "src/arb.cc")], ["Arb::operator<", "Arb::operator==", "Arb::operator<=", "..."])
prop("C07", "Balls report their midpoint, bounds and state faithfully in any history",
     "After any sequence of copies, moves, swaps, assignments and negations each Arb is the ball that the sequence describes. is_exact, is_finite and equal report the ball as it is, the cast to Arf is the midpoint, the cast to double is the nearest double of the midpoint, the cast to a pair of Arfs gives bounds that enclose the whole ball (and are exact for an exact one), and the printed decimal interval contains the ball (printing leaves the format of the stream as it was). randtest and randtest_exact give the balls that the state determines.",
     ["histories", "inputs"], "every ball and every sequence of value operations on aliased variables",
     "The tests look at a few balls with small exponents right after their creation.",
     ["exact-real/arb.hpp", "src/arb.cc"], [("value operations and observers on the wrapped arb_t", "src/arb.cc")], ["Arb::operator std::pair<Arf, Arf>", "Arb::operator double", "Arb::is_exact", "Arb::equal", "operator<<"])
prop("C08", "Arb expressions contain all exact results",
     "A lazily evaluated expression of Arbs, integers and doubles with +, -, *, / and negation yields a ball that contains the exact result for every choice of points in its operands, at the precision given by the closest enclosing annotation of each operation, and no wider than performing the operations one after the other at these precisions. This holds for every nesting, for +=, -=, *= and /= and when the target also appears as an operand, and it never changes the operands.",
     ["programs", "inputs"], "every expression tree, placement of precisions, target aliasing and operand balls",
     "The tests evaluate a few expression shapes on random balls and do not compare them with exact interval arithmetic.",
     ["exact-real/yap/arb.hpp", "exact-real/yap/arb_assign_transformation.hpp", "exact-real/yap/arb_expr.hpp", "exact-real/yap/assign_transformation.hpp", "exact-real/yap/prec_transformation.hpp", "exact-real/yap/prec_expr.hpp"],
     [("tree transformations that assign to a target", "exact-real/yap/arb_assign_transformation.hpp")], ["Arb::Arb(ArbExpr)", "Arb::operator=(ArbExpr)", "Arb::operator+=, -=, *=, /="])
prop("C09", "Approximations of real numbers are as accurate as promised in any query order",
     "For every kind of real number (rational, random, constrained random, product) all approximations are approximations of one and the same number: arf(p) has a relative error of at most 2^-p, arb(p) contains the number, with an accuracy of at least p bits, and refine only ever gives such a ball; cmp with a ball is 0 exactly when the ball contains the number, -1 when the number lies left of it and 1 when it lies right of it; the cast to double is the closest double. The answers do not depend on which other precisions were asked for before. All this holds for numbers of any magnitude.",
     ["histories", "inputs"], "every number, every precision and every order of queries, past any cache limit",
     "The tests ask for one or two precisions of random numbers and cannot see an approximation that is off by more than its error bound, nor a cache that returns another precision's answer.",
     ["exact-real/real_number.hpp", "src/real_number.cc", "src/impl/real_number_base.hpp", "src/random_real_number.cc", "src/constrained_random_real_number.cc", "src/rational_real_number.cc", "src/real_number_product.cc"],
     [("arf_(prec) of each kind", "src/*_real_number.cc, src/real_number_product.cc"), ("cache of approximations", "src/real_number.cc"), ("refine", "src/real_number.cc")], ["RealNumber::arf", "RealNumber::arb", "RealNumber::refine", "RealNumber::cmp"],
     [("arf54, arf64, large", "cached approximations by precision", "src/impl/real_number_base.hpp")])
prop("C10", "Random reals are determined by their seed and lie where they were asked for",
     "A random real made from a seed is the same number, with the same digits, every time, and different seeds give different numbers; random() lies in [0, 1], random(a, b) lies in [a, b], and random(d) is closer to the double d than to any other double. Making a random real in an empty or unbounded interval or near a non-finite double is refused with an exception.",
     ["inputs", "histories"], "every seed, interval and double, created in any order, alive or recreated",
     "The tests create a few random numbers with small seeds; a range violation for a rare seed or at a binade border, or state leaking from one creation to the next, needs systematic enumeration.",
     ["src/random_real_number.cc", "src/constrained_random_real_number.cc", "exact-real/seed.hpp"], [("deterministic generators seeded per number", "src/random_real_number.cc, src/constrained_random_real_number.cc")], ["RealNumber::random"])
prop("C11", "Real numbers are unique and multiply like monomials",
     "Two real numbers are the same object if and only if they were built as the same rational, the same random number or the same product up to the order and grouping of factors; multiplication is commutative and associative with 1 as its neutral element, whatever has been created or destroyed before. Dividing gives exactly the monomial whose product with the divisor is the dividend (1 for equal numbers), and nothing if there is none. A product whose total degree exceeds the largest int is refused with an exception.",
     ["histories", "inputs"], "every way to write a monomial as a product, every order of creation and destruction",
     "The tests multiply two or three factors once; uniqueness depends on the history of a weak cache and on hashes of factor lists.",
     ["exact-real/real_number.hpp", "src/real_number_product.cc", "src/rational_real_number.cc", "src/real_number_base.cc"], [("unique factory keyed by factors or by monomials and exponents", "src/real_number_product.cc")], ["RealNumber::operator*", "RealNumber::operator/", "RealNumber::operator=="],
     [("uniqueId", "identifies a real number also after others were destroyed", "src/impl/real_number_base.hpp")])
prop("C12", "Real numbers are totally ordered, consistently with all exact number types",
     "The six relational operators order real numbers (of all kinds, mixed) totally and as their values are ordered, and they compare a real number with an Arf, a GMP integer, a rational and a machine integer, in either order, exactly as the values compare. Comparisons of distinct numbers terminate however close these are, and they change nothing. No real number is smaller than, larger than or equal to NaN.",
     ["inputs"], "every pair of real numbers and every exact number, in particular very close ones",
     "The tests compare few numbers that differ in the first digits; closeness beyond the first precision, negative numbers and exact ties exercise other paths.",
     ["exact-real/real_number.hpp", "src/real_number.cc"], [("refinement of both sides until the balls separate", "src/real_number.cc")], ["RealNumber::operator<", "RealNumber::operator>", "RealNumber::operator=="])
prop("C13", "The monomial order is a total order compatible with multiplication",
     "deglex orders real numbers, seen as monomials, strictly and totally: rationals (not ordered among each other) first, then by total degree, with ties broken consistently by the factors; it is transitive, never holds both ways, and if a is smaller than b then a·c is smaller than b·c for all transcendental c. The order of given numbers never changes, whatever else is created or destroyed.",
     ["inputs", "histories"], "every pair and triple of monomials up to a degree in several variables",
     "No test exercises the order directly; sorting of module generators and exact division silently go wrong when it is not a monomial order.",
     ["exact-real/real_number.hpp", "src/real_number_product.cc"], [("deglex", "src/real_number_product.cc")], ["RealNumber::deglex"])
prop("C14", "Modules are unique, sorted and closed as sets of generators",
     "Making a module from the same generators in any order over the same ring gives the same module, and different generators or rings give different ones; its basis lists exactly these generators in increasing monomial order, and duplicate generators or two rational ones are refused. rank, gen, zero, one (exactly the number 1, or an exception if there is none), submodule (inclusion of generators) and span (the smallest module with the generators of both, over the compositum of the rings) are what these sets say.",
     ["inputs", "histories"], "every set of generators, in every order, over each kind of ring, with modules alive or recreated",
     "The tests build a few modules; uniqueness depends on the order of the given generators, on hashing and on what is still alive.",
     ["exact-real/module.hpp", "src/module.cc"], [("sorting by deglex and unique factory", "src/module.cc")], ["Module::make", "Module::basis", "Module::gen", "Module::one", "Module::submodule", "Module::span"])
prop("C15", "Arithmetic of elements is exact in the ring of polynomials in the generators",
     "Sums, differences, products and negatives of elements, also from different modules and also in place with an operand as target, are exactly the elements that the same computation with polynomials in the generators gives, over integers, rationals and number fields; multiplying with a generator is multiplication with that monomial. Hence the ring axioms hold exactly, and operands other than the target keep their value and their module.",
     ["programs", "inputs"], "every pair and triple of elements, every mix of modules, and every aliasing",
     "The tests check single results in one or two modules, not the interaction of differing modules, orders of generators and cancellation.",
     ["exact-real/element.hpp", "src/element.cc"], [("coefficientwise sums in the span, products merged by unique generators", "src/element.cc")], ["Element::operator+=", "Element::operator-=", "Element::operator*=", "Element::operator-"])
prop("C16", "Scaling an element by a constant is exact for every number type",
     "Multiplying or dividing an element by a short, int, long, long long (signed or unsigned), GMP integer, rational or element of the coefficient ring scales its value exactly, at the extremes of each type as well. Division by zero throws an exception, and so does a division that has no result over the integers; it never gives a rounded result.",
     ["inputs"], "every coefficient and every value of every type, in each of the three rings",
     "The tests use small ints; the extremes of the eight integer types, negative divisors and inexact integer division take separate template instances.",
     ["exact-real/element.hpp", "src/element.cc", "src/integer_ring.cc", "src/rational_field.cc", "src/number_field.cc"], [("Ring::imul and Ring::idiv", "src/integer_ring.cc, src/rational_field.cc, src/number_field.cc")], ["Element::operator*=", "Element::operator/="])
prop("C17", "Elements compare exactly as the numbers they stand for",
     "The six relational operators between elements (of the same or different modules), and between an element and an integer of any type, a rational or a generator, agree with the real numbers that the operands stand for, so they form a total order; equality is exact, and elements that are not equal are told apart however close they are. Comparing changes no operand.",
     ["inputs"], "every pair of elements and every integer and rational, in particular very close and exactly equal ones",
     "The tests compare few elements that differ clearly; near-ties need more precision than the first attempt, and exact ties must not search forever.",
     ["exact-real/element.hpp", "src/element.cc"], [("exact equality, then refinement until decided", "src/element.cc")], ["Element::operator<", "Element::operator>", "Element::operator=="])
prop("C18", "Exact division of elements is the inverse of multiplication",
     "If a divided by b returns a quotient q, then q·b is exactly a; and if a is a product of b with some element over the same coefficient ring then a quotient is returned, over integers, rationals and number fields and across modules. When b is zero the division throws, and when no quotient exists it returns nothing, and always terminates.",
     ["inputs"], "every pair of polynomials in the generators up to a degree",
     "The tests divide a few products; divisions that fail only in a late step, cancel leading terms or involve several monomials of the same degree are not sampled.",
     ["exact-real/element.hpp", "src/element.cc"], [("multivariate division with the monomial order", "src/element.cc")], ["Element::truediv"])
prop("C19", "Floor, ceiling and floor division are the exact integers",
     "floor and ceil of an element are the largest integer not above and the smallest integer not below its value, and floordiv is the floor of the exact quotient of two elements; an exact integer, an exact multiple, negative values and values extremely close to an integer included. Floor division by zero throws an exception, and all of these terminate.",
     ["inputs"], "every element and pair of elements, of either sign, near integers and near multiples",
     "The tests use a few positive values; signs and near-ties decide between two neighbouring integers.",
     ["exact-real/element.hpp", "src/element.cc", "src/rational_field.cc", "src/integer_ring.cc", "src/number_field.cc"], [("exact detection of integers and multiples, then refinement", "src/element.cc")], ["Element::floor", "Element::ceil", "Element::floordiv"])
prop("C20", "Elements convert to exactly the numbers they stand for",
     "coefficients, operator[] and rationalCoefficients give the coordinates of an element, the casts to integer and rational return its value if it is one and nothing otherwise, and the cast to bool tells whether it is non-zero. arb(p) contains the value with an accuracy of at least p bits, the cast to double is the nearest double, unit() tells whether its inverse exists in its module, and equal elements hash equally.",
     ["inputs"], "every element of each kind of module, and every precision",
     "The tests convert a few elements with small coefficients.",
     ["exact-real/element.hpp", "src/element.cc"], [("sum of balls at increasing precision", "src/element.cc"), ("casts", "src/element.cc")], ["Element::arb", "Element::operator double", "Element::operator std::optional<mpq_class>", "Element::rationalCoefficients", "Element::unit", "std::hash<Element>"])
prop("C21", "Changing the module of an element never changes its value",
     "promote moves an element to a module with the generators it uses, simplify to the smallest one, and the conversions to rational or number field coefficients to the bigger ring; after any sequence of these the element lives in exactly the module asked for (simplify: generated by precisely the generators with non-zero coefficients) and its value is unchanged.",
     ["histories", "inputs"], "every element, every super module and every sequence of these operations and arithmetic",
     "The tests promote once into a module with one more generator; a merge of two sorted bases goes wrong for particular interleavings of generators only.",
     ["exact-real/element.hpp", "src/element.cc", "src/module.cc"], [("merge of sorted bases", "src/element.cc")], ["Element::promote", "Element::simplify", "Element::Element(const Element<...>&)"])
prop("C22", "Serialization restores equal objects and keeps sharing",
     "Anything serialized (Arf, Arb, real numbers of every kind, modules, elements, and collections of these, null pointers too) deserializes to an equal object: bit-identical floating point numbers and balls, the same unique real number or module if it is still alive, and an equal one, with the same digits (for a product, up to rounding), if it was destroyed in between or in another process. Objects that are shared in the original are shared in the result.",
     ["inputs", "histories"], "every value, every sharing pattern, and every history of destruction between saving and loading",
     "The tests round-trip single objects that are still alive, so a loader that depends on the live object goes unnoticed.",
     ["exact-real/cereal.hpp", "exact-real/cereal.interface.hpp", "src/real_number.cc", "src/real_number_product.cc", "src/constrained_random_real_number.cc", "src/random_real_number.cc", "src/rational_real_number.cc"], [("save and load of each kind through its factory", "src/*.cc"), ("shared pointer registration", "exact-real/cereal.hpp")], ["save", "load"])
prop("C23", "Every default seed is new, also when threads create seeds concurrently",
     "Seed() returns a value that no Seed() in the process returned before, starting with 1337 and counting up, under every interleaving of threads that create seeds; a Seed made from a value has that value. In the same way, all random reals made without a seed, in any interleaving, are pairwise different numbers.",
     ["schedules", "histories"], "every number of seeds created and every interleaving of the memory accesses of several threads",
     "A lost update needs two threads at the same two instructions; no test uses threads.",
     ["exact-real/seed.hpp", "src/seed.cc", "src/real_number_base.cc"], [("global counter", "src/seed.cc")], ["Seed::Seed"], [("nextSeed", "the next default seed", "src/seed.cc")])
prop("C24", "The coefficient rings compute exactly",
     "For IntegerRing, RationalField and NumberField: multiplication and division in place are exact for every argument type and divisions by zero throw, floor is the largest integer not above, unit tells whether an inverse exists in the ring, rational returns the value if it is rational, arb gives an enclosure at the requested precision, coerce preserves the value or throws, and compositum returns a ring that contains both or throws. Rings compare and hash equal exactly if they are the same ring.",
     ["inputs"], "every coefficient, including negative and non-integral ones, and every argument type",
     "The tests reach the rings through elements with small positive coefficients only.",
     ["exact-real/integer_ring.hpp", "exact-real/rational_field.hpp", "exact-real/number_field.hpp", "src/integer_ring.cc", "src/rational_field.cc", "src/number_field.cc"], [("static helpers of each ring", "src/integer_ring.cc, src/rational_field.cc, src/number_field.cc")], ["imul", "idiv", "floor", "unit", "rational", "arb", "coerce", "compositum"])
prop("C25", "Elements, modules and real numbers print what they are",
     "The printed form of an element is a sum of its non-zero coefficients times its generators, zero printing as 0, no term missing or repeated, with signs such that reading the sum back gives exactly its coefficients; a module prints its ring and its generators in order, and a rational prints as its value. Printing the same object again gives the same text and changes neither the object nor the format of the stream.",
     ["inputs"], "every element of modules with up to several generators, of all signs and coefficients",
     "The tests print a few elements with small coefficients; terms are collected in a set ordered by value, in which close or equal keys could get lost.",
     ["exact-real/element.hpp", "exact-real/module.hpp", "exact-real/real_number.hpp", "src/element.cc", "src/module.cc", "src/real_number_product.cc"], [("operator<<", "src/element.cc, src/module.cc, src/*_real_number.cc")], ["operator<<"])
prop("C26", "Objects are immutable and independent of the history of other objects",
     "Real numbers, modules and elements keep their identity, order, digits and value while arbitrary other numbers, products and modules are created and destroyed, in any order, also past the limits of the library's caches. An object that is destroyed and built again is equal in value to the first one (its approximations agree, for a product up to rounding), and an object that is still alive is found again instead of being duplicated.",
     ["histories"], "every history of creations, copies, drops and rebuilds over a small set of names",
     "The tests create few objects and never drop one while others depend on it; caches keyed by reused addresses or identifiers fail for particular histories only.",
     ["src/real_number_product.cc", "src/module.cc", "src/rational_real_number.cc", "src/random_real_number.cc", "src/constrained_random_real_number.cc", "src/real_number_base.cc"], [("unique factories with weak references and unique identifiers", "src/*.cc")], ["RealNumber::random", "RealNumber::operator*", "Module::make"])
prop("C27", "The Python binding helpers do the same as the C++ operators",
     "The helper functions for the Python bindings (eval, add, sub, mul, truediv, neg, optional_integer, optional_rational, serialize and deserialize) return exactly what the corresponding C++ expression returns, for every combination of operand types for which they exist, and leave their operands unchanged.",
     ["inputs", "programs"], "every operand type combination and every operand of a small alphabet",
     "The C++ tests touch one or two of the helpers; a swapped operand order is invisible for commuting operands.",
     ["exact-real/cppyy.hpp"], [("stubs that forward to the operators", "exact-real/cppyy.hpp")], ["exactreal::cppyy::*"])
prop("C28", "Whatever is dropped is released; repeating a computation takes no memory",
     "Any computation with the library can be repeated any number of times without using ever more memory: everything that was allocated for numbers, balls, real numbers, products, modules and elements is released with the last reference to them, temporaries are released when an operation returns or throws, and caches are bounded. This holds for every operation, also when it is refused with an exception, for numbers of every size, and for computations that alternate.",
     ["histories", "programs"], "every operation of the library in every mode of use (long and short numbers, new and shared objects, successful and refused), repeated without limit, also alternating with others",
     "A test runs each operation a few times and looks at results only; a leak changes no result, and one in a rarely taken branch (a long mantissa, an exception, a cache) is invisible.",
     ["src/arf.cc", "src/arb.cc", "src/element.cc", "src/module.cc", "src/real_number_product.cc", "src/random_real_number.cc", "src/constrained_random_real_number.cc", "src/rational_real_number.cc", "exact-real/cereal.hpp"], [("temporaries of FLINT types, released by hand", "src/arf.cc, src/arb.cc"), ("unique factories with weak references", "src/*.cc")], ["allocated bytes"])


def main():
    claimed = [p for p in P if p["id"] in CHECKS]
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [],
        "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "the check is not built yet")} for p in P if p["id"] not in CHECKS],
    }
    for p in claimed:
        c = CHECKS[p["id"]]
        manifest["checks"].append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": c.get("technique", "exhaustive bounded exploration of the real code against an exact reference model"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "every element of the bounded space is executed on the library built from the working tree and compared, step by step, with an independent exact model; bounds in DESIGN.md and the evidence file"),
        })
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
