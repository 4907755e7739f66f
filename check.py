#!/usr/bin/env python3
"""Build the library from /repo's working tree, explore one property, report.

usage: check.py PROPERTY [--tier quick|thorough]   run the check of a property
       check.py --replay FILE                      re-execute a reported violation
       check.py --setup                            build everything once
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = f"{REPO}/libexactreal"
BUILD = f"{VERIF}/build"
SHIM = f"{VERIF}/shim"
HARNESS = f"{VERIF}/harness"
JOBS = min(8, os.cpu_count() or 8)

sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS  # noqa: E402

BASE = ["-std=c++17", "-g1", "-Wno-deprecated-declarations"]
LINK = ["-leanticxx", "-leantic", "-lflint", "-lmpfr", "-lgmpxx", "-lgmp", "-lboost_serialization", "-lpthread"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def gen_local():
    """exact-real/local.hpp and config.h, as configure makes them."""
    d = f"{BUILD}/gen/exact-real"
    os.makedirs(d, exist_ok=True)
    src = open(f"{LIB}/exact-real/local.hpp.in").read().replace("@libdir@", '"/nonexistent"')
    p = f"{d}/local.hpp"
    if not os.path.exists(p) or open(p).read() != src:
        tmp = f"{p}.{os.getpid()}"
        open(tmp, "w").write(src)
        os.replace(tmp, p)


def includes():
    return [f"-I{SHIM}", f"-I{BUILD}/gen/exact-real", f"-I{BUILD}/gen", f"-I{LIB}"]


def compile_one(src, flags):
    """Compile src, with the result cached by the preprocessed source."""
    pre = run(["g++", *BASE, *flags, *includes(), "-E", src])
    if pre.returncode:
        raise BuildError(f"{src}: preprocessing failed\n{pre.stderr.decode()[-3000:]}")
    key = hashlib.sha256(pre.stdout + b"\0" + " ".join(flags + BASE).encode()).hexdigest()[:32]
    obj = f"{BUILD}/obj/{os.path.basename(src)}.{key}.o"
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = run(["g++", *BASE, *flags, *includes(), "-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError(f"{src}: compilation failed\n{r.stderr.decode()[-6000:]}")
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def library_sources():
    return sorted(f"{LIB}/src/{f}" for f in os.listdir(f"{LIB}/src") if f.endswith(".cc"))


def build(harnesses, variant):
    """Return {harness: executable} with the library's current sources linked in."""
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    gen_local()
    v = VARIANTS[variant]
    exes = {}
    with cf.ThreadPoolExecutor(JOBS + 2) as pool:
        hs = {h: pool.submit(compile_one, f"{HARNESS}/{h}.cc", v["flags"] + ["-I" + HARNESS] + v.get("harness_flags", [])) for h in harnesses}
        libs = [pool.submit(compile_one, s, v["flags"] + v.get("lib_flags", []) + ["-DBUILD_LIBEXACTREAL"]) for s in library_sources()]
        extra = [pool.submit(compile_one, f"{HARNESS}/{s}", v["extra_flags"]) for s in v.get("extra", [])]
        libs = [f.result() for f in libs] + [f.result() for f in extra]
        hs = {h: f.result() for h, f in hs.items()}
    for h, o in hs.items():
        key = hashlib.sha256(" ".join([o, *libs]).encode()).hexdigest()[:16]
        exe = f"{BUILD}/bin/{h}.{variant}.{key}"
        if not os.path.exists(exe):
            tmp = f"{exe}.{os.getpid()}.tmp"
            r = run(["g++", *v["flags"], o, *libs, *v.get("link", []), *LINK, "-o", tmp])
            if r.returncode:
                raise BuildError(f"{h}: linking failed\n{r.stderr.decode()[-6000:]}")
            os.replace(tmp, exe)
        exes[h] = exe
    prune()
    return exes


def prune():
    """Keep the cache small: it is only an optimisation."""
    for d, n in (("obj", 400), ("bin", 60)):
        p = f"{BUILD}/{d}"
        fs = sorted((os.path.join(p, f) for f in os.listdir(p)), key=os.path.getmtime)
        for f in fs[:-n]:
            try:
                os.unlink(f)
            except OSError:
                pass


def env():
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    e["MALLOC_PERTURB_"] = "165"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    return e


def known_findings():
    p = f"{VERIF}/known-findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def replay_one(exe, suite, f, jobs, tier, timeout=300):
    """Does the recorded leaf fail again, alone or else after its predecessors?"""
    if f.get("hung"):
        timeout = 100
    for extra in (["--replay", suite, str(f["index"])], ["--replay-prefix", suite, str(f["index"]), str(f["shard"]), str(jobs)]):
        try:
            r = run([exe, "--tier", tier, *extra], env=env(), timeout=timeout)
            out = (r.stdout + r.stderr).decode(errors="replace")
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") + f"\nno end after {timeout} s"
            rc = -1
        if rc != 0:
            return extra, out
    return None, ""


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        for v in ("plain", "sched"):
            build(sorted({p[0] for c in CHECKS.values() for p in c["parts"] if p[1] == v}), v)
        print("built")
        return 0
    if args[:1] == ["--replay"]:
        r = json.load(open(args[1]))
        exe = build([r["harness"]], r["variant"])[r["harness"]]
        p = run([exe, "--tier", r["tier"], *r["args"]], env=env())
        sys.stdout.write((p.stdout + p.stderr).decode(errors="replace"))
        print("violation reproduced" if p.returncode else "not reproduced")
        return 1 if p.returncode else 0

    prop = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = CHECKS[prop]
    parts = [p for p in conf["parts"] if tier == "thorough" or len(p) < 4 or p[3] != "thorough"]
    work = f"{BUILD}/work/{prop}.{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    budget = 3600 if tier == "thorough" else 720
    try:
        exes = {}
        for variant in sorted({p[1] for p in parts}):
            for h, e in build(sorted({p[0] for p in parts if p[1] == variant}), variant).items():
                exes[h, variant] = e
    except BuildError as e:
        print(f"cannot build: {e}", file=sys.stderr)
        return 2
    built = time.time() - t0

    known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "open"]
    kfile = f"{work}/known"
    with open(kfile, "w") as f:
        for k in known:
            f.write(f"{k['suite']}\t{k['case']}\n")
    results, violations, knownhits = [], [], []
    hung = False
    todo = [(part, False) for part in parts]
    while todo:
        part, patient = todo.pop(0)
        if violations and (hung or time.time() - t0 > 300):
            # Other parts of the library can be expected to hang as well.
            break
        harness, variant, suites = part[0], part[1], part[2]
        out = f"{work}/{harness}.{variant}.json"
        left = max(30, budget - (time.time() - t0))
        # a check that is cheap explores the large alphabets of its harness in either tier
        depth = "thorough" if conf.get("deep") else tier
        cmd = [exes[harness, variant], "--tier", depth, "--out", out, "--work", work, "--jobs", str(JOBS), "--deadline", str(left), "--known", kfile]
        if patient:
            cmd += ["--leaf-timeout", "300"]
        elif variant != "plain":
            cmd += ["--leaf-timeout", "120"]
        for s in suites:
            cmd += ["--suite", s]
        r = run(cmd, env=env())
        if r.returncode < 0 and not os.path.exists(out):
            # The process died before its first suite: in the library's own initialization.
            path = f"{VERIF}/replays/{prop}-{harness}-startup.json"
            msg = f"the process died with signal {-r.returncode} before its first execution: {r.stderr.decode(errors='replace')[-1000:]}"
            f = {"case": "start of the process", "msg": msg, "index": 0}
            json.dump({"property": prop, "harness": harness, "variant": variant, "tier": depth, "args": ["--suite", "none"], "case": f["case"], "msg": msg}, open(path, "w"), indent=1)
            violations.append((path, "startup", f))
            continue
        if r.returncode or not os.path.exists(out):
            print(f"harness {harness} failed: {r.stderr.decode()[-2000:]}", file=sys.stderr)
            return 2
        data = json.load(open(out))
        for s in data["suites"]:
            if not s["leaves"] and not s["failures"] and not data["stopped"]:
                print(f"suite {s['suite']} executed nothing", file=sys.stderr)
                return 2
        missing = [n for n in suites if not any(fnmatch.fnmatch(s["suite"], n) for s in data["suites"])]
        if (missing and not data["hung"] and not data["stopped"]) or not data["suites"]:
            print(f"no suite {missing} in {harness}", file=sys.stderr)
            return 2
        for s in data["suites"]:
            s["harness"], s["variant"] = harness, variant
            results.append(s)
            confirmed = 0
            for f in sorted(s["failures"], key=lambda f: (bool(f.get("crash")), f["index"])):
                if f.get("known"):
                    knownhits.append((s["suite"], f))
                    continue
                if confirmed >= 2 or (f.get("hung") and violations):
                    continue
                how, text = replay_one(exes[harness, variant], s["suite"], f, s["jobs"], depth)
                if how is None:
                    # What depends on addresses may need another attempt.
                    how, text = replay_one(exes[harness, variant], s["suite"], f, s["jobs"], depth)
                if how is None:
                    print(f"note: {s['suite']}:{f['index']} ({f['case']}: {f['msg']}) did not fail again when replayed", file=sys.stderr)
                    s["unconfirmed"] = s.get("unconfirmed", 0) + 1
                    if f.get("crash") and not (f.get("hung") and patient):
                        # the machine can be to blame for that (a time out, no memory)
                        continue
                    # a wrong result on the real code is a violation, even if it does not come back at will
                    how, text = ["--replay-prefix", s["suite"], str(f["index"]), str(f["shard"]), str(s["jobs"])], f["msg"]
                if not f["case"]:
                    for line in text.splitlines():
                        if line.startswith("leaf "):
                            f["case"] = line.split(": ", 1)[1]
                # A leaf that crashed is only known under the description that its replay printed.
                if any(k["suite"] == s["suite"] and k["case"] == f["case"] for k in known):
                    knownhits.append((s["suite"], f))
                    continue
                confirmed += 1
                path = f"{VERIF}/replays/{prop}-{harness}-{s['suite']}-{f['index']}.json"
                json.dump({"property": prop, "harness": harness, "variant": variant, "suite": s["suite"], "index": f["index"], "tier": depth, "args": how, "case": f["case"], "msg": f["msg"], "replay_output": text[-4000:], "how": f"cd {VERIF} && python3 check.py --replay {path}"}, open(path, "w"), indent=1, ensure_ascii=False)
                violations.append((path, s["suite"], f))
        hung = hung or data["hung"]
        if data["hung"] and not violations and not patient:
            # No hang at all, the machine was busy: this part has not been explored completely.
            results = [s for s in results if (s["harness"], s["variant"]) != (harness, variant)]
            todo.insert(0, (part, True))

    seen = set()
    for suite, f in knownhits:
        for k in known:
            if k["suite"] == suite and k["case"] == f["case"] and id(k) not in seen:
                seen.add(id(k))
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, suite, f in violations:
        print(f"  {suite}: {f['case']}: {f['msg']}"[:1500])
        print(f"VIOLATION property={prop} replay={path}")

    cov = {
        "states": sum(s["states"] for s in results),
        "transitions": sum(s["transitions"] for s in results),
        "traces_validated_against_impl": sum(s["leaves"] for s in results),
        "exhaustive": all(not s["capped"] for s in results),
        "bounds": conf["bounds"][tier] if isinstance(conf["bounds"], dict) else conf["bounds"],
        "explanation": "states: distinct canonical states or operand configurations, transitions: operations of the real code compared with the reference model, traces: elements of the bounded space executed from start to end on the real library",
        "samples": [f"{s['suite']}: {x}" for s in results for x in s["samples"][:2]][:24],
        "suites": [{k: s[k] for k in ("suite", "variant", "leaves", "space", "states", "transitions", "capped", "outcomes", "wall_s")} for s in results],
        "build_s": round(built, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "model_checking"), "coverage": cov, "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    shutil.rmtree(work, ignore_errors=True)
    n = sum(s["leaves"] for s in results)
    print(f"{prop}: {n} executions, {cov['states']} states, {cov['transitions']} transitions, {'complete' if cov['exhaustive'] else 'CAPPED'}, {len(violations)} violations, {ev['wall_s']} s")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
