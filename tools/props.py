#!/usr/bin/env python3
"""The properties, and the checks that decide them. Source of properties.jsonl and of MANIFEST.json's
"checks" (python3 tools/props.py rewrites both)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, flavors=("san",), na=None, observe=None, technique=None, level="model_checking", rule=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, flavors=flavors, na=na, observe=observe or [], technique=technique, level=level, rule=rule))


T_IN = "bounded exhaustive enumeration of operands (stateless model checking of the real code) against a reference model"
T_HIST = "explicit-state exploration: every operation from every reachable state plus every operation history up to a depth, in lockstep with a reference model"
T_FSM = "exhaustive exploration of all input words up to a length over the automaton's alphabet, against a reference automaton"
T_FAULT = "exhaustive fault injection: every allocation and element-copy failure point of every operation from every small state"
T_SCHED = "instrumented memory accesses; conflict analysis reduces all interleavings of two threads to one trace class, every conflict is explored as interleavings"

I = "sources/int.hpp"; S = "sources/str.hpp"; L = "sources/list.hpp"; D = "sources/deque.hpp"; SE = "sources/set.hpp"
DI = "sources/dict.hpp"; F = "sources/fraction.hpp"; C = "sources/complex.hpp"; T = "sources/tuple.hpp"; U = "sources/utility.hpp"

# ---------------------------------------------------------------- Int
prop("C01", "Int addition, subtraction and multiplication are exact",
     "For any two big integers of any size and sign, +, -, *, their compound forms (also when both operands are the same object), ++, --, unary minus, unary plus and abs give exactly the mathematical result. The result is the same value as the integer read from its decimal text, and the other operand is left unchanged.",
     ["inputs"], "all pairs of integers (dense small range; structured long operands: carry/borrow runs, powers of ten and two, unequal lengths), all operators, aliased and not",
     "Tests use two or three 20-digit constants; carries, borrows, lengths and aliasing are sampled at a handful of points.",
     [I], [("chunk-wise add/subtract/multiply with carry, then trim", "Int::operator+= -= *= ++ --")], flavors=("san", "fast"), technique=T_IN)
prop("C02", "Int division and remainder satisfy the division identity",
     "For every dividend a and every non-zero divisor b, a / b is the quotient truncated toward zero and a % b is a - (a / b) * b, so |a % b| < |b| and a non-zero remainder has the sign of a. Division or remainder by zero raises a runtime error and changes nothing; compound and self-aliased forms agree with the plain ones.",
     ["inputs"], "all pairs (a, b): dense small range, structured long operands whose quotients contain 0 and 9 digits and whose lengths differ by 0, 1 or many",
     "Tests divide equal magnitudes and one 5-digit number by 1; no remainder other than 0 is tested.",
     [I], [("shift-and-subtract long division", "Int::operator/= %=")], flavors=("san", "fast"), technique=T_IN)
prop("C03", "Int comparison is the order of the integers",
     "==, !=, <, <=, >, >= on integers agree with the mathematical order for every pair, whatever operations produced the two values. digits(), is_zero/positive/negative and is_even/odd report the decimal length (0 for zero), sign and parity of the value.",
     ["inputs", "histories"], "all pairs of a dense range and of structured long values, each value produced by several routes (literal, arithmetic, increment, negation, move)",
     "Tests compare three fixed values.",
     [I], [("sign, then length, then most significant chunk comparison on trimmed chunks", "Int::operator<=>, abs_cmp, trim")], flavors=("san", "fast"), technique=T_IN)
prop("C04", "Int text and native conversions are lossless",
     "A text is accepted as an integer exactly when it is an optional sign followed by one or more decimal digits; its value is the number it denotes and any other text raises a runtime error. Printing gives the canonical decimal form (no leading zeros, no '+', '0' for zero) and parsing it back gives the same value; every native int can be converted to an integer, and to_integer<T>() returns the value for every value in T's range.",
     ["inputs"], "all texts up to a length over {+,-,digits,blank,letter}; all structured long values; all native values of small types and all boundary values of wide ones",
     "Tests parse a few literals and convert 0 and +-1024.",
     [I], [("is_integer grammar check, chunk fill, print loop, to_integer Horner loop", "Int::Int, operator<<, to_integer")], flavors=("san", "fast"), technique=T_FSM)
prop("C05", "Int sqrt, log, gcd and lcm are exact and terminate",
     "Int::sqrt(n) is floor(sqrt(n)) for every n >= 0, Int::log(n, b) is the largest k with b^k <= n for every n >= 1 and b >= 2, gcd and lcm are the non-negative greatest common divisor and least common multiple for every pair including zeros and negatives; each call terminates. Arguments outside those domains raise a runtime error.",
     ["inputs"], "all n up to a bound, squares and powers +-1 of long numbers, all bases up to a bound, all pairs",
     "Tests take the root of 11 numbers and the logarithm of 14.",
     [I, U], [("Newton iteration; repeated division; Euclid", "Int::sqrt, log, gcd, lcm; internal::gcd")], flavors=("san", "fast"), technique=T_IN)
prop("C06", "Int powers and factorials are exact",
     "Int::pow(b, e) is b^e for every e >= 0, and for negative e it is the truncated value (1 or -1 when |b| is 1, otherwise 0) or an error for base 0; Int::pow(b, e, m) with m != 0 equals (b^e) % m for every base, exponent >= 0 and modulus. n.factorial() is n! for n >= 0 and an error for negative n.",
     ["inputs"], "all (base, exponent, modulus) triples over a range including negatives, 0, +-1; long bases; all n! up to a bound",
     "Tests evaluate two modular powers and six factorials.",
     [I], [("square and multiply with optional reduction; running product", "Int::pow, factorial")], flavors=("san", "fast"), technique=T_IN)
prop("C07", "Int primality and next prime are right for every integer",
     "is_prime() is true exactly for prime numbers (never for negatives, 0 and 1), and next_prime() returns the smallest prime strictly greater than the value for every integer.",
     ["inputs"], "every integer of a dense range, squares and products of primes beyond it, negatives",
     "Tests check 13 integers and 24 successors.",
     [I], [("trial division up to the square root; odd-number walk", "Int::is_prime, next_prime")], flavors=("san", "fast"), technique=T_IN)
prop("C08", "Int::random honours the requested number of digits",
     "For every answer of the entropy source, Int::random(n) with n >= 0 is a non-negative integer with exactly n decimal digits (0 for n = 0) in canonical form, Int::random() has at most 4300 digits, and a negative digit count (other than the default -1) raises a runtime error. No digit value is unreachable, and different entropy gives different numbers.",
     ["inputs", "configurations"], "all seeds of a contiguous range as the environment's answer x all digit counts up to a bound",
     "Tests draw a few numbers from real hardware entropy and can never control the answer.",
     [I], [("digit-wise generation, leading digit redrawn", "Int::random")], flavors=("san", "fast"), technique="exhaustive enumeration of the environment's answers (the entropy source is interposed) up to a bound, real code")
# ---------------------------------------------------------------- Str
prop("C09", "Str searches agree with a naive scan in every range",
     "find(p, start, stop) returns the smallest index i with start <= i and i + |p| <= stop at which p occurs, or -1, where negative bounds count from the end and bounds are clamped to the string as in Python; contains agrees with it, count is the number of non-overlapping occurrences from the left (size + 1 for an empty pattern), starts_with and ends_with test prefix and suffix. No combination of string, pattern and bounds reads outside the string.",
     ["inputs"], "all strings and patterns up to a length over a small alphabet x all start/stop in a range around the size and the extreme ints",
     "Tests use one string with start 0 or 3 and stop 99.",
     [S], [("string_view search over a clamped window", "Str::find, contains, count, starts_with, ends_with")], flavors=("san",), technique=T_IN)
prop("C10", "Str is an indexable sequence: index, slice, erase, rotate, repeat",
     "Indexing (negative from the end), slicing with any start, stop and non-zero step, erasing a range, rotating left or right by any int, reversing, appending and repeating give the character sequence that the corresponding operation on a plain sequence gives. Positions outside the string, an inverted erase range, a zero step, a negative repeat count and a result too long to be represented raise a runtime error; the original string never changes.",
     ["inputs"], "all strings up to a length x all index arguments around the bounds and at the extreme ints; structured longer strings",
     "Tests slice one 5-character string and rotate one 11-character string.",
     [S, U], [("check_bounds, index normalisation, std::rotate_copy", "Str::operator[], slice, erase, operator>> <<, reverse, operator+ *")], flavors=("san",), technique=T_IN)
prop("C11", "Str case mapping and strip touch only what they should",
     "lower() and upper() change exactly the ASCII letters to the other case and leave every other byte as it is. strip() removes exactly the leading and trailing blank characters (control characters and space, byte values 0x00-0x20), strip(c) exactly the leading and trailing c (any c but -1, the default argument that stands for blank); every other byte, including bytes above 0x7F, is preserved.",
     ["inputs"], "every byte value in every position of strings up to 3 bytes, all words over a small alphabet up to a length",
     "Tests use only letters for case mapping and only ASCII text for strip.",
     [S], [("per-character mapping; two-ended trim", "Str::lower, upper, strip")], flavors=("san",), technique=T_IN)
prop("C12", "Str split, join and replace obey their algebra",
     "split(sep, true) returns the pieces between the non-overlapping occurrences of sep from the left, so joining them with sep restores the string; split(sep) is the same without the empty pieces; an empty separator raises a runtime error. join concatenates with the separator between items, and replace(a, b) substitutes every non-overlapping occurrence from the left (an empty a matches before every character and at the end), for any characters including NUL.",
     ["inputs"], "all strings, separators and replacements up to a length over a small alphabet, all lists up to a length",
     "Tests check about twenty fixed calls.",
     [S, L], [("find-driven scanning", "Str::split, join, replace")], flavors=("san",), technique=T_IN)
prop("C13", "Str.format substitutes arguments in order, once each",
     "format(args...) replaces the first {...} field by the printed form of the first argument, the next field after it by the second argument, and so on; text outside fields, surplus fields and braces inside inserted arguments are copied literally, and surplus arguments are ignored.",
     ["inputs"], "all templates up to a length over {'{','}',letters} x 0..4 arguments of several types",
     "Tests check three templates.",
     [S], [("format_helper scanning a string_view", "Str::format")], flavors=("san",), technique=T_IN)
prop("C14", "Str.to_integer accepts exactly the literals of its base",
     "For every base from 2 to 36, to_integer(base) accepts exactly blanks (space, tab, CR, LF), an optional sign, one or more digits valid in that base in either letter case, and blanks; the result is the number denoted, of any size. Any other text, and any other base, raises a runtime error.",
     ["inputs"], "all words up to a length over a class-representative alphabet x every base; every single byte; long digit strings",
     "Tests parse about thirty texts in four bases.",
     [S, I], [("one-hot finite state machine", "Str::to_integer, get_event, char_to_integer")], flavors=("san",), technique=T_FSM)
prop("C15", "Str.to_decimal accepts exactly decimal literals and is accurate",
     "to_decimal() accepts exactly blanks, an optional sign, digits with at most one decimal point and at least one digit, an optional exponent, and blanks, plus the listed spellings of infinity and NaN; any other text raises a runtime error. The result agrees with the correctly rounded value of the literal to about 15 significant digits; overflow gives +-HUGE_VAL and underflow gives zero or a denormal, for any number of digits and any exponent.",
     ["inputs"], "all words up to a length over the automaton's alphabet; all mantissa/exponent length combinations of a grid; all case variants of inf/infinity/nan",
     "Tests check some forty texts with a relative tolerance of 1e-5.",
     [S], [("one-hot finite state machine with mantissa/exponent accumulation", "Str::to_decimal")], flavors=("san",), technique=T_FSM)
# ---------------------------------------------------------------- List
prop("C16", "List behaves as a mutable sequence under every operation history",
     "After any sequence of insert, remove, +=, -=, *=, /=, rotations, reverse, erase, extend, clear, element assignment, copy and move, a list holds exactly the elements that the same operations produce on a plain sequence, in order, and size, iteration in both directions, indexing and printing agree with it. This also holds when an argument is the list itself or one of its own elements.",
     ["histories", "inputs"], "every operation with every argument from every list up to a length over a small alphabet; all operation histories up to a depth; structured lists up to thousands of elements",
     "Tests run each operation once or twice on {1,2,3,4,5}.",
     [L, U], [("std::vector with index normalisation and bounds checks", "List")], flavors=("san",), technique=T_HIST)
prop("C17", "List queries and slices agree with a plain sequence",
     "Indexing (negative from the end), slice with any start, stop and non-zero step, index/contains with any range (negative bounds from the end, clamped, as in Python), find and count return what a naive scan of the sequence returns and never read outside the list. Positions outside the list, a zero step and a repeat count below zero or too large raise a runtime error; +, -, *, / return new lists and leave the operands unchanged.",
     ["inputs"], "all lists up to a length x all arguments around the bounds and at the extreme ints",
     "Tests slice and search one list.",
     [L, U], [("check_bounds, slice loop, std::find over clamped range", "List::operator[], slice, index, contains, count, operator+ - * /")], flavors=("san",), technique=T_IN)
prop("C18", "List sort is stable; uniquify, filter and map keep order",
     "sort (with the default order or any strict weak order) permutes the list into ascending order and keeps equal elements in their original relative order, for any length. uniquify keeps exactly the first occurrence of every value in original order, filter keeps exactly the elements that satisfy the predicate in original order, map applies the action once to every element from first to last.",
     ["inputs"], "all key patterns up to a length beyond the small-array thresholds of the sorting algorithms, with identities attached to equal keys; structured long lists",
     "Tests sort ten distinct integers and five records, below the size at which an unstable sort shows.",
     [L], [("std::stable_sort, first-occurrence scan, copy_if", "List::sort, uniquify, filter, map")], flavors=("san", "fast"), technique=T_IN)
# ---------------------------------------------------------------- Deque
prop("C19", "Deque behaves as a double-ended sequence under every history",
     "After any sequence of pushes and pops at both ends, extends at both ends (prepending keeps the range's order), rotations by any int, reverse, clear, element assignment, copy and move, a deque holds exactly the elements the same operations produce on a plain sequence; front, back, indexing (negative from the end), size, comparison and iteration in both directions agree with it. Popping, peeking or indexing outside raises a runtime error and changes nothing, and ranges taken from the deque itself are allowed.",
     ["histories", "inputs"], "every operation from every deque up to a length; all histories up to a depth; sizes around the storage-node boundaries",
     "Tests push and pop 100 elements and rotate one 5-element deque.",
     [D, U], [("std::deque with emptiness and bounds checks", "Deque")], flavors=("san",), technique=T_HIST)
# ---------------------------------------------------------------- Set / Dict
prop("C20", "Set holds distinct elements under every operation history",
     "After any sequence of add, remove, pop, extend, clear, copy, move and set operations, a set contains exactly the elements put in and not taken out, each once, iterated in ascending order; add and remove report whether they changed the set, pop returns and removes a member, contains/find/min/max/size agree with the content. min, max and pop on an empty set raise a runtime error.",
     ["histories"], "all histories up to a depth over a small universe; every operation from every subset; structured sets of hundreds of elements",
     "Tests add and remove five integers in one order.",
     [SE, U], [("std::set", "Set")], flavors=("san",), technique=T_HIST)
prop("C21", "Set algebra and subset relations follow set theory",
     "For every pair of sets, &, |, -, ^ are intersection, union, difference and symmetric difference, the compound forms do the same in place (also with the set itself as operand) and operands are otherwise unchanged. ==, <=, <, >=, > are equality, subset, proper subset, superset and proper superset, so incomparable sets satisfy none of them.",
     ["inputs"], "all pairs (and triples for the laws) of subsets of a small universe; structured larger sets",
     "Tests combine one pair of sets.",
     [SE], [("std::set_intersection/union/difference, std::includes", "Set operators")], flavors=("san",), technique=T_IN)
prop("C22", "Dict behaves as a finite map under every operation history",
     "After any sequence of add, remove, pop, extend, element assignment, clear, copy and move, a dictionary maps exactly the keys present to their values; add and extend never overwrite an existing key, and add and remove report whether they changed anything. Indexing a missing key raises a runtime error and inserts nothing, get falls back to the default, pop, min and max on an empty dictionary raise a runtime error, and keys, values, items, find, contains, size and ascending iteration agree with the content.",
     ["histories"], "all histories up to a depth over small key and value universes; every operation from every small map; structured larger maps",
     "Tests use one three-entry dictionary.",
     [DI, SE, U], [("std::map with presence checks", "Dict")], flavors=("san",), technique=T_HIST)
# ---------------------------------------------------------------- Fraction
prop("C23", "Fraction arithmetic is exact and canonical",
     "Every fraction is in lowest terms with a positive denominator; +, -, *, /, unary minus, abs, ++, -- and the compound forms (also with the fraction itself as operand) give exactly the rational result whenever its numerator and denominator in lowest terms fit in an int, even if intermediate products do not. A zero denominator or divisor, or a result that does not fit, raises a runtime error and changes nothing; conversion to double is the quotient.",
     ["inputs"], "all pairs of fractions with small terms, all (numerator, denominator) constructor arguments of a grid including the extreme ints, pairs of fractions with large terms",
     "Tests use +-1/2, 0 and a few small fractions.",
     [F, U], [("sign normalisation and division by gcd in the constructor", "Fraction")], flavors=("san", "fast"), technique=T_IN)
prop("C24", "Fraction comparison is the order of the rationals",
     "==, !=, <, <=, >, >= on fractions agree with the exact order of the rational numbers for every pair of representable fractions, so the order is total and transitive and two fractions are equal exactly when numerator and denominator are equal.",
     ["inputs"], "all pairs and chains of fractions with small terms and with terms around 2^15, 2^16, 2^26, 2^30 and the extreme ints",
     "Tests compare eight pairs with denominators up to 6.",
     [F], [("cross multiplication", "Fraction::operator<=>, operator==")], flavors=("san", "fast"), technique=T_IN)
prop("C25", "Fraction remainder, gcd and lcm follow their definitions",
     "For b != 0, a % b equals a - trunc(a / b) * b; gcd(a, b) is the largest non-negative rational of which both are integer multiples, and lcm(a, b) is the smallest positive rational that is an integer multiple of both (0 if either is 0), whenever the result is representable. A zero divisor raises a runtime error; every call terminates.",
     ["inputs"], "all pairs of fractions of a grid including negatives, zero, and large terms",
     "Tests check four gcds and remainders that are all 0 or 1/6.",
     [F, U], [("integer remainder over a common denominator; Euclid", "Fraction::operator%, gcd, lcm")], flavors=("san", "fast"), technique=T_IN)
# ---------------------------------------------------------------- Complex
prop("C26", "Complex arithmetic obeys the complex field",
     "+, -, *, /, unary minus, conjugate, abs, arg and the compound forms (also self-aliased) give the complex result for moderate components: +, - and * exactly for small integers and dyadic fractions, all to about 12 digits otherwise; abs and arg for every magnitude. pow(b, e) is b^e to about 9 digits for b != 0, and 1 for e = 0; division by zero and powers of zero with a non-zero exponent raise a runtime error. Equal components compare equal, components that differ by 1e-15 or more do not.",
     ["inputs"], "all pairs over a grid of Gaussian integers and dyadic fractions; all small integer exponents against repeated multiplication; all quadrants",
     "Tests combine three values.",
     [C, U], [("component formulas; polar form for pow", "Complex")], flavors=("san",), technique=T_IN)
# ---------------------------------------------------------------- I/O, cross-cutting
prop("C27", "Reading numbers from a stream is safe for every input",
     "Reading an Int, Fraction or Complex from a stream always terminates, also at end of input. A well-formed literal delimited by white space or end of input is read with its exact value, successive reads take successive literals; anything else is never silently accepted: the read throws a runtime error or leaves the stream failed, a throwing read leaves the target unchanged, and the outcome does not depend on earlier reads.",
     ["inputs", "histories"], "all byte sequences up to a length over the lexical alphabet, all sequences of two or three tokens, all three types",
     "Tests read four good and a few bad literals per type; the empty stream is never read.",
     [I, F, C], [("peek-driven hand-written scanners", "operator>> of Int, Fraction, Complex")], flavors=("san",), technique=T_FSM)
prop("C28", "Tuples compare, project and print element-wise",
     "Two tuples are equal exactly when they have the same length, the same element types in order and equal elements; != is the negation; both are symmetric. get<I>() is the I-th element, rest() the tuple of the remaining elements, size() the number of elements, for tuples of any arity and element types; make_tuple holds copies of its arguments, and a tuple prints its elements in order.",
     ["inputs"], "all tuples up to arity 4 over three element types and small value sets, all ordered pairs of them",
     "Tests compare a handful of tuples.",
     [T], [("recursive inheritance, one value per level", "Tuple")], flavors=("san",), technique=T_IN)
prop("C29", "Every value prints in its documented form, alone or nested",
     "List, Set, Deque, Dict, Tuple, Str, Int, Fraction and Complex print as [..], {..}, <..>, {k: v, ..}, (..) ((x,) for one element), quoted text, decimal digits, n/d (n when the denominator is 1) and (a+bj) or (a-bj), with elements separated by comma and space and printed recursively in their own form, each as it would print alone on that stream. Printing does not change the value, and leaves the stream's formatting state as it was, so what is printed before never changes how later values look.",
     ["inputs", "histories"], "all values of small size of every type, all two-level nestings, all ordered pairs of values printed to one stream, all relevant stream states",
     "Tests print a handful of values each to a fresh stream.",
     [U, L, SE, D, DI, T, S, I, F, C], [("internal::print and operator<< of each type", "operator<<")], flavors=("san",), technique=T_IN)
prop("C30", "Equal values have equal hashes and act as one key",
     "For Int, Str, Fraction and Complex, two values that compare equal have the same std::hash, however each was computed, so unordered sets and maps keyed by them contain one entry per distinct value and find it again.",
     ["inputs", "histories"], "all pairs of values of a grid, each produced by several routes; all insertion/lookup histories of small unordered sets",
     "Tests only construct unordered sets.",
     [I, S, F, C], [("std::hash specialisations", "std::hash<pyincpp::...>")], flavors=("san",), technique=T_IN)
prop("C31", "All types are values: copies are independent, aliasing is harmless",
     "For every type, a copy equals its source and later changes to either never show in the other; a moved-from object is empty or zero and fully usable; self-assignment, swap and compound operators whose operand is the object itself behave as if the operand were a separate copy. Const operations never change the object they are called on nor their arguments, and no operation leaks or double-frees memory.",
     ["histories"], "all (construct, copy/move/assign/swap, mutate) sequences up to a depth for every type and small value set, all self-aliased operators",
     "Tests copy and move one value per type and self-append one list.",
     [I, S, L, D, SE, DI, F, C, T], [("copy/move constructors and assignments of each type", "rule-of-five members")], flavors=("san",), technique=T_HIST)
prop("C32", "A rejected operation raises a runtime error and changes nothing",
     "Whenever an operation rejects its arguments or state (bad index, empty container, missing key, zero divisor, bad literal, invalid base, negative count, result too large), it throws std::runtime_error and the object and all arguments are exactly as before, still fully usable. It rejects exactly the documented cases: every valid argument is accepted.",
     ["inputs", "histories"], "every operation with every argument of a range crossing its domain boundary, from every small state, followed by every operation",
     "Tests trigger each error once and never look at the object afterwards.",
     [U, I, S, L, D, SE, DI, F, C], [("check_bounds/check_empty/check_full/check_zero before any mutation", "internal::check_*")], flavors=("san",), technique=T_HIST)
prop("C33", "Out-of-memory and element-copy failures leave values valid",
     "If an allocation or the copy of an element fails at any point inside any operation, the exception propagates (or the operation completes with the right result; reading from a stream may also report a read error), nothing leaks, every object involved can still be observed, compared, assigned and destroyed, and operands of operations that return a new value are unchanged.",
     ["fault_sequences", "histories"], "every allocation index and every element-copy index of every operation from every small state",
     "Tests never fail an allocation or a copy.",
     [I, S, L, D, SE, DI], [("standard containers' guarantees; order of updates of sign and digits in Int", "mutating operators")], flavors=("san",), technique=T_FAULT, level="fault_enumeration",
     rule="every operation of the catalogue (assignments, mutating operations, operations with another value or with itself, operations that return a value) on every pair of catalogue values x every allocation of that operation failing once, and every element copy failing once; thorough: a second such operation follows the first. An execution counts as distinct and non-trivial when the fault fired and (type, values, operation, fault point) differ.")
prop("C34", "Concurrent reads and independent objects never interfere",
     "Calls of const operations on the same object from several threads, and of any operations on distinct objects, never conflict: no operation writes to an object it only reads nor to storage shared between objects, so every interleaving gives the results of running the calls one after another.",
     ["schedules"], "all ordered pairs of operations of a catalogue covering every type, two threads, all interleavings of their memory accesses",
     "Tests are single-threaded.",
     [I, S, L, D, SE, DI, F, C, T, U], [("no mutable or static state", "all const members and static functions")], flavors=("tsan",), technique=T_SCHED)
prop("C35", "Sequences compare lexicographically and consistently",
     "For lists, deques and strings, == holds exactly when sizes and elements agree, and <, <=, >, >= are the lexicographic order (a proper prefix is smaller; characters compare by unsigned byte value), so exactly one of <, ==, > holds for every pair and the order is transitive; dictionaries and sets are equal exactly when their contents are.",
     ["inputs"], "all pairs and triples of sequences up to a length over a small alphabet (all byte classes for strings), nested sequences, structured long sequences differing in one place",
     "Tests compare six fixed pairs per type.",
     [L, D, S, DI, SE], [("defaulted three-way comparison over the standard containers", "operator<=>")], flavors=("san",), technique=T_IN)
prop("C36", "Conversion constructors and ranges preserve the elements",
     "Building a list, deque, set, dictionary or string from an initializer list, an iterator range (also from another container type, reversed or from a single-pass input stream iterator) or the corresponding standard container yields exactly those elements, in order for sequences, first occurrence winning for duplicate keys. extend, extend_back, extend_front accept the same kinds of ranges with the same result, and the source is unchanged.",
     ["inputs"], "all source contents up to a length x all source kinds x all target types and extend operations from all small states",
     "Tests construct each container once and extend it from one vector.",
     [L, D, SE, DI, S], [("range constructors and insert", "constructors, extend*")], flavors=("san",), technique=T_IN)
prop("C37", "Random integers are statistically uniform",
     "The digits of Int::random are uniformly distributed and statistically independent, drawn from hardware entropy where available.",
     ["configurations"], "the distribution over all answers of a true entropy source",
     "Tests only look at the number of digits.",
     [I], [("std::random_device seeding std::mt19937", "Int::random")],
     na="A statement about a probability distribution: model checking explores which values are possible, not how likely they are. The possibility part (digit count, reachability of every digit, dependence on the entropy) is decided by C08.")

prop("C38", "Reading a Str takes exactly one line",
     "Reading a Str from a stream replaces its value by the characters up to the next newline or the end of input, whatever they are (blanks, NUL, bytes above 0x7F) and however many; the newline is consumed and not stored, so successive reads take successive lines, empty ones included. When nothing is left, or the stream has failed before, the read fails.",
     ["inputs"], "all texts up to a length over the character classes, every pair of bytes, all chunkings of the source, previous values of the target, line lengths around buffer sizes",
     "Tests read three lines of letters.",
     [S], [("std::getline into the string", "Str operator>>")], flavors=("san",), technique=T_IN)
prop("C39", "Values of every type act as elements and keys of every container",
     "Int, Str, Fraction, Complex and the containers themselves can be elements of List and Deque, and the ordered ones elements of Set, keys and values of Dict and of unordered containers, at any nesting: insertion, removal, search, sort, uniquify, set algebra, lookup and printing treat them by value and order, however each value was computed, exactly as they treat native integers. Fraction works as a scalar of generic arithmetic code.",
     ["histories", "inputs"], "all sequences and subsets over a few keys x every operation, element types Int, Str, Fraction, Complex, List, Deque, Set, Dict, Tuple and nestings, each element built by alternating routes",
     "Tests combine the types in one literal.",
     [I, S, F, C, L, D, SE, DI, T], [("ordering, equality, copy and move of the value types inside the containers' algorithms", "operator<=>, operator==, copy/move of every type; std algorithms in the containers")], flavors=("san",), technique=T_HIST)

GUARD = {
    "C08": "std::random_device is interposed at link level (its out-of-line members), so the harness decides every entropy word.",
}


def manifest():
    checks, na = [], []
    notes = json.load(open(os.path.join(ROOT, "tools", "notes.json"))) if os.path.exists(os.path.join(ROOT, "tools", "notes.json")) else {}
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".cpp")):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 tools/run.py %s quick" % p["id"],
            "thorough_cmd": "python3 tools/run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": notes.get(p["id"]) or p["note"] or "Exhaustive within the bounds reported in the evidence (per scenario: executions, steps, complete or not); says nothing beyond them. Trusts the reference model in checks/%s.cpp, the explorer mc/mc.hpp, the compiler, ASan/UBSan and libstdc++." % p["id"],
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: the library is header-only and every check drives its public interface. known_findings.txt lists genuine defects found, fixed or recorded.",
    }
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


def properties():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["public interface of the class"], "hook_needed": None},
            }) + "\n")


if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    properties()
    manifest()
    print(len(P), "properties")
