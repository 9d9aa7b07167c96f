#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (oracle and bounds from the table below, scenario
sizes from evidence/), the seeded-bug table (tools/seeded_runs.json) and the notes at the end of design_tail.md."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props

# property -> (oracle, what is monitored / why it is enough, bounds that matter)
T = {
"C01": ("boost cpp_int; schoolbook arithmetic on decimal text for lengths beyond 16 bits",
        "every operator, compound form and alias of every pair, then the text, sign, parity and length of the result and of both operands",
        "dense -120..120 (quick) to -400..400 pairs; 200+ structured long operands (9-runs, powers of 10 and 2 +-1, carries that stop after k digits), all pairs; lengths 32768, 65537 and 131073"),
"C02": ("boost cpp_int (truncated division), and a = b*q + r built backwards for lengths beyond 16 bits",
        "quotient, remainder, identity, sign of the remainder, errors for 0, self-aliased forms",
        "dense pairs, quotients with runs of 0 and 9, length differences 0, 1, many; divisors of 32769..131073 digits"),
"C03": ("boost cpp_int comparison", "six comparisons both ways, sign and parity queries and digits() for values that reached their state by ten different routes",
        "dense pairs, all structured pairs, lengths around 2^15, 2^16, 2^17"),
"C04": ("a reference grammar for literals; cpp_int; native limits", "accept/reject, value, canonical print, print-parse round trip, to_integer<T> for eight native types",
        "all words of length <= 6-7 over the class alphabet, every byte in every position, all 8/16 bit values, all limits +-2"),
"C05": ("cpp_int: s*s <= n < (s+1)*(s+1); b^k <= n < b^(k+1); Euclid", "value and termination (an execution that does not end is a violation), domain errors",
        "all n to 12000/150000, squares +-1 to 10^40..10^200, powers +-1 of every base to 40, all pairs +-120"),
"C06": ("cpp_int repeated multiplication", "value, sign, errors; moduli around machine words, so that a native shortcut that wraps shows",
        "bases -13..13+, exponents to 25-60, all moduli of a range, word-size moduli, n! to 255/705"),
"C07": ("trial division on native integers, a table of strong and Carmichael pseudoprimes", "is_prime and next_prime",
        "all integers to 12000/200000, squares and products of primes, pseudoprimes to bases 2, 3, 5, 7"),
"C08": ("canonical form: exactly n digits, first one non-zero", "std::random_device is interposed at link level; every answer of a contiguous range, constant, alternating and failing sources; reachability of every digit in every position; different answers give different numbers",
        "3.4 million (answer, length) pairs, lengths to 131073"),
"C09": ("naive scan with Python's clamping rules", "result and absence of out-of-range reads (ASan)", "all texts <= 5-7 and patterns <= 3 over 2 letters x all bounds, texts that collide under 16/32 bit hashes, texts of 65536 +- 1"),
"C10": ("std::string/vector walk", "result, error, original unchanged", "all strings to length 5-6 with all indices, steps and extreme ints; every index of strings of 70..2100; results around INT_MAX"),
"C11": ("explicit byte tables", "bytes of the result", "every byte in every position of words up to 3, all words over a small alphabet, a foreign global locale, 65537 bytes"),
"C12": ("naive left-to-right scan; join(split) = identity", "pieces, inverse, errors", "all texts x separators x replacements to length 6/2/2, NULs, 70000 pieces"),
"C13": ("one left-to-right scan", "result; a preceding call whose argument throws, sets stream states or flags must not matter", "all templates to length 8-10 over {}x, 0..4 arguments of twelve types, fields and texts to 131073"),
"C14": ("reference automaton", "accept/reject and value", "all words to length 4-7 x all 35 bases, every byte, digit runs around native limits, 65537 leading zeros or blanks"),
"C15": ("reference automaton; strtod (correctly rounded) with 1e-14 relative tolerance", "accept/reject, value, overflow and underflow", "all words to length 6-8, every byte, all mantissas x all exponents -345..330, exponents beyond 64 bits, 70001 digits, a locale whose decimal point is a comma"),
"C16": ("std::vector<int>", "after each operation: content, size, both iteration directions, indexing, equality, text", "every operation with every argument from every list of length <= 4-5; histories of depth 3-4; node/size boundaries; every index at sizes to 2100; 65537 elements"),
"C17": ("std::vector<int>", "result, error, operands unchanged", "all lists to length 5 x all arguments and extreme ints; lists to 263000 elements"),
"C18": ("counting sort with identities", "order and identity of equal elements, number and order of callback calls", "all 3-key patterns to length 9-11, all 2-key patterns of length 16-18, all permutations to 8-9, every kept count of lists of 1300-2600, structured to 131073"),
"C19": ("std::vector<int>", "as C16", "as C16, plus node boundaries of the storage, every rotation and index to 2100, queue disciplines, 65537 elements"),
"C20": ("std::set<int>", "content, order, both directions, contains/find for all keys, min/max, reports", "every operation from every subset of a small universe, all pairs of operations, histories, insertion/removal orders of up to 6 elements, 65537 elements"),
"C21": ("bit masks; std::set algorithms", "all operators and relations, compound and self forms, operands unchanged", "all pairs of subsets of 6-8 elements, all triples of 4-5 for the laws, patterns over 32 elements, 65537 elements"),
"C22": ("std::map<int,int>", "content, order, presence, keys/values/items, error effects", "as C20, over four key/value types"),
"C23": ("128-bit rationals", "lowest terms, exact result or error when it does not fit, nothing changed after an error, double value", "all pairs with small terms, a grid including the extreme ints, histories"),
"C24": ("128-bit cross products", "six comparisons, triples for transitivity, equality across routes", "small terms, neighbours in Farey sequences near 2^15..2^31"),
"C25": ("128-bit rationals", "value, error, termination", "all pairs of small terms and of the grid, Fibonacci neighbours (longest Euclid)"),
"C26": ("long double complex arithmetic; exact for Gaussian integers and dyadic fractions", "value within the stated tolerance, errors, equality", "grids in all quadrants, integer powers, magnitudes 1e-300..1e300"),
"C27": ("a reference lexer: well-formed / malformed / left open", "value, stream state, termination, no dependence on earlier reads", "all words to length 6-7 over each alphabet, every byte, all pairs and triples of tokens, lengths around stream buffer sizes"),
"C28": ("element-wise comparison of the values the tuples were built from", "==, !=, both ways, get, rest, size, text, copies", "all type lists over 2-3 types to arity 2-4 with all values, nested tuples, NaN, signed zeros, elements with an odd =="),
"C29": ("an independent printer", "text, value and stream state", "every value alone, all pairs on one stream, all combinations of base/float/fill/adjust/width/precision flags, failed streams, 70000 elements"),
"C30": ("equality itself", "hash equality for equal values, std::unordered_set/map histories against a linear scan", "values by many routes, all pairs, all histories to depth 3-4, one object through its mutators, 131073 digits"),
"C31": ("plain C++ values that cannot share", "both slots after each operation; leaks by block counting, re-executed to tell a leak from memory made on first use; double frees by ASan", "all histories of two slots to depth 3 (quick) over construct/copy/move/assign/swap/mutate/alias for 16 types"),
"C32": ("the documented domain of each operation as a predicate; a twin object that never saw the rejected call", "accept/reject, exception type, object and arguments afterwards, one more operation on both twins", "every operation x every argument across its boundary from every small state, histories state-op-op under test-op"),
"C33": ("the result without the fault, or the exception", "every observable after the fault, assignability, leaks, operands", "every allocation index and every element-copy index of every operation on every pair of catalogue values; thorough: two faulty operations in a row"),
"C34": ("sequential results", "own runtime behind -fsanitize=thread instrumentation: all accesses of both threads between synchronisation points; no conflicting access means that all interleavings are equivalent (one Mazurkiewicz trace), a conflict is a violation or explored as interleavings when it is under a lock or atomic", "all ordered pairs of operations of a catalogue for 11 types, on shared and on copied values, also in a process where nothing has run before"),
"C35": ("std::vector/std::string/std::set comparison; bytes unsigned", "all relations both ways", "all pairs to length 4-5, long pairs that differ in one place, prefixes, every pair of bytes, nested"),
"C38": ("a hand-written line splitter", "each line, the stream state, where the stream stands, copies of the target, reads after the end", "all texts to length 5-6 over 8 classes, every pair of bytes in four shapes, chunks of 1..4, lines of 15..1048577 characters, 65537 lines"),
"C39": ("the same operations on native integer keys", "content, order, results, text; unordered containers hold one entry per distinct value", "all sequences to length 4 over 4 keys x 16 operations, all pairs of subsets of 6-8 values for the algebra, dictionary histories to depth 4-5, long lists to 300, for ten element types; all 2x2 matrices of small fractions"),
"C36": ("std containers", "content, order, source unchanged, iterator category honoured (a single-pass source records stale use)", "all contents to length 4 x all source kinds x all targets, 6160 long ranges, 65537 elements"),
}


def sect(p):
    e = os.path.join(ROOT, "evidence", p["id"] + ".json")
    out = ["### %s %s" % (p["id"], p["title"]), ""]
    if p["na"]:
        return out + ["Not applicable. " + p["na"], ""]
    o, m, b = T[p["id"]]
    out += ["* Enumerated: %s. Bounds (quick-thorough): %s." % (p["text"], b),
            "* Oracle: %s." % o, "* Monitored: %s." % m,
            "* Why the tests cannot: %s" % p["why"]]
    if os.path.exists(e):
        j = json.load(open(e))
        cov = j["coverage"]
        sc = []
        for fl, d in cov.get("scenarios", {}).items():
            n = sum(x["executions"] for x in d.values())
            sc.append("%s: %d scenarios, %s executions" % (fl, len(d), format(n, ",")))
        out += ["* Cost (%s, 8 cores): %.0f s; %s." % (j["tier"], j.get("wall_s") or cov.get("wall_s", 0), "; ".join(sc))]
    return out + [""]


head = open(os.path.join(ROOT, "tools", "design_head.md")).read()
tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
body = ["## Properties", "", "Statements are in properties.jsonl. Builds: %s." % "`san` decides everything, `fast` widens the bounds where the cost is in the arithmetic", ""]
for p in props.P:
    body += sect(p)
body += ["## Planted bugs and what catches them", "", "One line for each folder of seeded/: the check that is run against it and what it reports. Every one was verified in a",
         "scratch copy: builds, passes the stable tests, demo fails with it and passes without it.", "",
         "| id | property | what it needs | its check |", "|---|---|---|---|"]
runs = json.load(open(os.path.join(ROOT, "tools", "seeded_runs.json"))) if os.path.exists(os.path.join(ROOT, "tools", "seeded_runs.json")) else {}
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    body.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")[:160], runs.get(d, "?").replace("|", "/")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(head.rstrip() + "\n\n" + "\n".join(body) + "\n\n" + tail)
