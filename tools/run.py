#!/usr/bin/env python3
"""run.py ID quick|thorough - builds checks/ID.cpp against /repo/sources, explores, writes evidence/ID.json.

exit 0: the property held on everything explored; 1: violation (line VIOLATION property=ID replay=PATH);
2: no verdict (does not build, machinery error)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props

REPO = os.environ.get("VERIF_REPO", "/repo")
COMMON = ["-std=c++20", "-w", "-pthread", "-I", os.path.join(REPO, "sources"), "-I", os.path.join(ROOT, "mc")]
FLAVOR = {
    "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"],
    # used to confirm what "san" reports: g++-14's UBSan miscompiles (cond ? p : q)[i * k], see DESIGN.md
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "clang": ["-Wno-everything", "-Wno-c++11-narrowing", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2"],
    # compile-time instrumentation only; mc/tsanrt.cpp is the runtime. Standard library templates are compiled along.
    "tsan": ["-O0", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DMC_NO_NEW"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:symbolize=0:quarantine_size_mb=8:handle_abort=0:max_free_fill_size=4096:free_fill_byte=221",
           # memory that was freed is overwritten: the compiled part of libstdc++ (tree iterators) is not instrumented
           MALLOC_PERTURB_="165", UBSAN_OPTIONS="print_stacktrace=0:exitcode=78", LC_ALL="C")


def known_for(pid):
    """known_findings.txt: 'open: property=ID key=KEY | text' and 'fixed: property=ID commit text' lines"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("open: property=%s " % pid):
                head, text = line.split("|", 1)
                out.append((head.split("key=", 1)[1].strip(), text.strip()))
    return out


WRAP = "memcpy memmove memset memcmp memchr strlen strtok rand srand drand48 setlocale localtime gmtime pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock pthread_once".split()


def build(pid, flavor, out):
    cpp = os.path.join(ROOT, "checks", pid + ".cpp")
    extra, parts = [], 1
    for line in open(cpp):
        if line.startswith("// link:"):
            extra = line.split(":", 1)[1].split()
        if line.startswith("// parts:"):
            parts = int(line.split(":", 1)[1])
    cc = ["clang++" if flavor == "clang" else "g++-14"] + COMMON
    if parts == 1 and flavor != "tsan":
        return compile_(cc + FLAVOR[flavor] + [cpp, "-o", out] + extra)
    # the parts are compiled in parallel, see mc.hpp
    objs = ["%s.%d.o" % (out, k) for k in range(parts)]
    cmds = [cc + FLAVOR[flavor] + (["-DPART=%d" % k] if parts > 1 else []) + ["-c", cpp, "-o", objs[k]] for k in range(parts)]
    link = cc
    if flavor == "tsan":
        # -fsanitize=thread inserts the calls; the program is linked without it, with the harness's own runtime
        objs.append(out + ".rt.o")
        cmds.append(cc + ["-O2", "-c", os.path.join(ROOT, "mc", "tsanrt.cpp"), "-o", objs[-1]])
        link = cc + ["-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAP]
    else:
        link = cc + FLAVOR[flavor]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for e in ex.map(compile_, cmds):
            if e:
                return e
    return compile_(link + objs + ["-o", out] + extra)


def compile_(c):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        return None
    errors = [x for x in r.stdout.split("\n") if "error:" in x or "error " in x][:20]
    return "\n".join([" ".join(c)] + errors + ["..."]) + "\n" + r.stdout[-4000:]


def confirmed(pid, work, tier, v, kf):
    """A violation of the g++ sanitizer build must show in a plain build or in a clang sanitizer build too."""
    for f in ("plain", "clang"):
        out = os.path.join(work, f)
        if build(pid, f, out):
            return True # cannot be cross-checked
        r = subprocess.run([out, "--tier", tier, "--known", kf] + v["replay_args"].split(" "), cwd=work, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode != 0:
            return True
    return False


def rejected(err, work):
    """The compiler says the harness is wrong, while the library by itself compiles: not a lack of memory or space."""
    if " error: " not in err or any(x in err for x in ("fatal error", "internal compiler error", "No space", "Killed", "signal terminated", "cannot allocate", "out of memory")):
        return False
    t = os.path.join(work, "empty.cpp")
    with open(t, "w") as f:
        f.write('#include "pyincpp.hpp"\nint main() { }\n')
    return compile_(["g++-14"] + COMMON + ["-fsyntax-only", t]) is None


def evidence(p, tier, t0, cov, violations):
    return {"property": p["id"], "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": p["level"], "coverage": cov,
            "assumptions": ["bounds as reported per scenario", "the reference model in checks/%s.cpp" % p["id"], "g++-14, libstdc++, ASan and UBSan behave as documented"],
            "wall_s": round(time.time() - t0, 2), "violations": violations}


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3:] # for development: extra arguments for the explorer
    t0 = time.time()
    p = next(x for x in props.P if x["id"] == pid)
    flavors = list(p["flavors"])
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(ROOT, "build"))
    rc, viol, known, parts = 0, None, [], []
    try:
        with ThreadPoolExecutor(4) as ex:
            errs = list(ex.map(lambda f: build(pid, f, os.path.join(work, f)), flavors))
        for e in errs:
            if e and rejected(e, work):
                # the program of this check uses only what the documentation offers: it has no execution any more
                path = os.path.join(ROOT, "evidence", "replay-%s.json" % pid)
                json.dump({"property": pid, "kind": "does not compile", "scenario": "compile checks/%s.cpp" % pid, "tier": tier, "trace": e}, open(path, "w"), indent=1)
                json.dump(evidence(p, tier, t0, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0, "rule": p["rule"], "exhaustive": False,
                                                 "samples": ["(the documented uses collected in checks/%s.cpp are rejected by the compiler)" % pid]}, 1), open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
                print("documented uses of the library are rejected by the compiler:\n%s" % "\n".join(x for x in e.split("\n") if "error:" in x)[:3000])
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            if e:
                print("NO VERDICT property=%s: the harness does not build\n%s" % (pid, e))
                return 2
        tb = time.time() - t0
        kf = os.path.join(work, "known.txt")
        with open(kf, "w") as f:
            for k, t in known_for(pid):
                f.write(k + "\t" + t + "\n")
        budget = {"quick": 420.0, "thorough": 3000.0}[tier]
        budget = float(os.environ.get("VERIF_BUDGET", budget))
        for f in flavors:
            js = os.path.join(work, f + ".json")
            cmd = [os.path.join(work, f), "--tier", tier, "--jobs", str(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)), "--json", js, "--known", kf,
                   "--budget", str(max(20.0, budget - (time.time() - t0)) if tier == "quick" else budget / len(flavors))] + only
            r = subprocess.run(cmd, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1 and f == "san" and not confirmed(pid, work, tier, json.load(open(js))["violation"], kf):
                print("note: what g++-14's sanitized build reported is not confirmed by a plain and a clang build; exploring with clang instead")
                cmd[0] = os.path.join(work, "clang")
                r = subprocess.run(cmd, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            again = 0
            while r.returncode == 2 and again < 2 and os.path.exists(js) and json.load(open(js))["unconfirmed"]:
                # An execution failed, and the same choices in a fresh process did not: the code under test reads what
                # earlier calls left in memory, or the time, or the machine is at fault. Explore once more.
                again += 1
                first = json.load(open(js))["unconfirmed"]
                os.remove(js)
                r = subprocess.run(cmd, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode == 2 and os.path.exists(js) and again == 2:
                    d = json.load(open(js))
                    if d["unconfirmed"] and d["unconfirmed"]["scenario"] == first["scenario"]:
                        # three explorations, and each one saw it fail: the harness decides nothing by chance
                        d["violation"] = dict(d["unconfirmed"], message=d["unconfirmed"]["message"] + " (seen in three explorations, but not when its choices are replayed alone)")
                        json.dump(d, open(js, "w"))
                        r.returncode = 1
            if r.returncode not in (0, 1) or not os.path.exists(js):
                print("NO VERDICT property=%s flavor=%s rc=%d\n%s" % (pid, f, r.returncode, r.stdout[-3000:]))
                rc = 2
                break
            d = json.load(open(js))
            d["flavor"] = f
            parts.append(d)
            for k in d["known"]:
                if k not in known:
                    known.append(k)
            if d["violation"]:
                viol = dict(d["violation"], flavor=f, tier=tier, property=pid)
                rc = 1
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    cov = {}
    ex = sum(d["executions"] for d in parts)
    steps = sum(d["steps"] for d in parts)
    samples = [s for d in parts for s in d["samples"]][:8] or ["(the run stopped at a violation)" if viol else "(none)"]
    detail = {d["flavor"]: d["scenarios"] for d in parts}
    complete = bool(parts) and all(d["exhaustive"] for d in parts) and len(parts) == len(flavors)
    if p["level"] == "fault_enumeration":
        cov = {"evaluations": ex, "distinct_nontrivial": sum(d["states"] for d in parts),
               "rule": p["rule"], "samples": samples}
    else:
        cov = {"states": sum(d["states"] for d in parts), "transitions": steps, "traces_validated_against_impl": ex, "samples": samples,
               "explanation": "Stateless exploration of the real code: every choice sequence within the bounds is executed on the implementation and compared with the reference after every step. "
                              "states = distinct observed states or cases (exact 64-bit hash set; a lower bound where table_saturated > 0), transitions = operations executed, traces = complete executions of the implementation."}
    cov["exhaustive"] = complete
    cov["scenarios"] = detail
    cov["distinct_outcomes"] = sum(d["outcomes"] for d in parts)
    cov["table_saturated"] = sum(d["table_saturated"] for d in parts)
    cov["build_s"] = round(tb, 1)
    ev = evidence(p, tier, t0, cov, 1 if viol else 0)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viol:
        path = os.path.join(ROOT, "evidence", "replay-%s.json" % pid)
        json.dump(viol, open(path, "w"), indent=1)
        print("scenario %s [%s, %s]: %s\n%s" % (viol["scenario"], viol["flavor"], viol["kind"], viol["message"], viol["trace"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if rc == 0:
        print("%s %s: held on %d executions, %d steps, %d states, %s, %.1f s (build %.1f)" % (
            pid, tier, ex, steps, cov.get("states", cov.get("distinct_nontrivial")), "exhaustive" if complete else "NOT COMPLETE (budget)", time.time() - t0, tb))
        if "-v" in os.environ.get("VERIF_V", ""):
            print(json.dumps(detail, indent=1))
    return rc


sys.exit(main())
