#!/usr/bin/env python3
"""Decide one property: build the engine and the harness (with /repo's current
source), execute every harness entry symbolically, replay what comes back
natively, write the evidence.

  check.py C05 quick|thorough     decide property C05
  check.py --replay FILE          re-run a reported violation natively
  check.py --setup                build the engine only
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
BUILD = os.path.abspath(os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build")))
EVID = os.path.abspath(os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence")))
CORES = os.cpu_count() or 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


# Properties of pangram/bootstrap.py, decided by pysx/run.py.
PYTHON = {"C20", "C21", "C22", "C23", "C24"}


class Broken(Exception):
    """The check itself cannot give an answer."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def build_engine():
    t = os.path.join(BUILD, "symx")
    r = run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", t], cwd=os.path.join(VERIF, "symx"), env=ENV)
    if r.returncode != 0:
        raise Broken("engine build failed:\n" + r.stderr[-4000:])
    return os.path.join(t, "release", "symx")


def harness_toml(repo, lib=None):
    s = open(os.path.join(VERIF, "harness", "Cargo.toml")).read()
    s = s.replace('path = "/repo"', 'path = "%s"' % repo)
    s = s.replace('path = "regex"', 'path = "%s"' % os.path.join(VERIF, "harness", "regex"))
    s = s.replace('crate-type = ["staticlib"]', 'path = "%s"\ncrate-type = ["staticlib"]' % (lib or os.path.join(VERIF, "harness", "src", "lib.rs")))
    return s


def generated(d):
    """A copy of the harness's sources with the Rust that the bootstrap tool
    generates from its own specification, with c25.rs as a module of it."""
    g = os.path.join(d, "gen")
    shutil.rmtree(g, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "pangram"), os.path.join(g, "pangram"), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree(os.path.join(VERIF, "harness", "src"), os.path.join(g, "src"))
    out = os.path.join(g, "src", "test_pangram.rs")
    # Formatting does not matter.
    os.makedirs(os.path.join(g, "bin"))
    with open(os.path.join(g, "bin", "rustfmt"), "w") as f:
        f.write("#!/bin/sh\n")
    os.chmod(os.path.join(g, "bin", "rustfmt"), 0o755)
    r = run([sys.executable, "-B", "bootstrap.py"], cwd=os.path.join(g, "pangram"), env=dict(ENV, PATH=os.path.join(g, "bin") + ":" + ENV["PATH"]), timeout=120)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("the bootstrap tool fails:\n" + r.stderr[-3000:])
    with open(out) as f:
        text = f.read()
    with open(os.path.join(g, "src", "generated.rs"), "w") as f:
        f.write(text + '\n#[path = "c25.rs"]\npub mod c25;\n')
    return os.path.join(g, "src", "lib.rs")


def build_harness(prop, tier, profile="release"):
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    toml = harness_toml(REPO, generated(d) if prop == "C25" else None)
    p = os.path.join(d, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != toml:
        open(p, "w").write(toml)
    feats = prop.lower() + (" deep" if tier == "thorough" else "")
    env = dict(ENV)
    t = os.path.join(d, "t-" + tier)
    cmd = ["cargo", "build", "--offline", "--quiet", "--features", feats, "--target-dir", t]
    if profile == "release":
        cmd.insert(2, "--release")
        env["RUSTFLAGS"] = "--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp -Awarnings"
    else:
        env["RUSTFLAGS"] = "-Awarnings"
        t += "-dev"
        cmd[-1] = t
    r = run(cmd, cwd=d, env=env)
    if r.returncode != 0:
        raise Broken("harness build failed:\n" + r.stderr[-6000:])
    sub = "release" if profile == "release" else "debug"
    lib = os.path.join(t, sub, "libharness.a")
    if profile != "release":
        return None, lib
    lls = sorted(glob.glob(os.path.join(t, sub, "deps", "harness-*.ll")), key=os.path.getmtime)
    if not lls:
        raise Broken("no IR produced")
    return lls[-1], lib


def entries_of(prop):
    """Entry points of a property's module with their options."""
    src = open(os.path.join(VERIF, "harness", "src", prop.lower() + ".rs")).read().split("\n")
    out = []
    opts = {}
    for k, l in enumerate(src):
        m = re.match(r"\s*// @sx (.*)", l)
        if m:
            opts = dict(x.split("=") for x in m.group(1).split())
        m = re.match(r'\s*pub extern "C" fn (h_\w+)\(\)', l)
        if m:
            out.append((m.group(1), opts))
            opts = {}
    covers = [k + 1 for k, l in enumerate(src) if ("cover!()" in l or "refused!()" in l) and not l.strip().startswith("//")]
    return out, src, covers


def compile_replay(prop, tier, lib, names, suffix):
    d = os.path.join(BUILD, prop, "replay-" + tier + suffix)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "entries.h"), "w") as f:
        for n in names:
            f.write("void %s(void);\n" % n)
        f.write("static struct { const char *name; void (*f)(void); } entries[] = {%s};\n" % ", ".join('{"%s", %s}' % (n, n) for n in names))
    exe = os.path.join(d, "replay")
    r = run(["gcc", "-O1", "-I", d, "-o", exe, os.path.join(VERIF, "replay", "rt.c"), lib, "-lpthread", "-ldl", "-lm"])
    if r.returncode != 0:
        raise Broken("replay link failed:\n" + r.stderr[-3000:])
    return exe


def native(exe, entry, lines, timeout=60):
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
        for l in lines:
            f.write(" ".join(map(str, l)) + "\n")
    try:
        r = run([exe, entry, f.name], timeout=timeout, env=dict(ENV, RUST_BACKTRACE="0"))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        os.unlink(f.name)


def reproduces(v, res):
    """Does a native run show the violation the engine found?"""
    rc, out, err = res
    k = v["kind"]
    if k == "assert":
        return rc == 42 and "ASSERT %d" % v["code"] in out.split("\n")
    if k == "nontermination":
        return rc == "timeout"
    if k == "stack":
        return rc == "timeout" or (isinstance(rc, int) and rc < 0)
    # panic / memory / unreachable: the run dies (or trips an assertion)
    return isinstance(rc, int) and (rc < 0 or rc == 42)


def cross_check(dump, limit):
    """Ask a second solver about some of the queries."""
    files = sorted(glob.glob(os.path.join(dump, "*.smt2")))
    if not files:
        return {"queries": 0}
    step = max(1, len(files) // limit)
    files = files[::step][:limit]
    solver = shutil.which("cvc5")
    name = "cvc5"
    if not solver:
        solver = shutil.which("z3-new")
        name = "z3-new"
    if not solver:
        return {"queries": 0, "note": "no second solver"}

    def one(f):
        try:
            r = run([solver, f], timeout=30)
        except subprocess.TimeoutExpired:
            return None
        w = r.stdout.strip().split("\n")[-1].strip()
        if w not in ("sat", "unsat"):
            return None
        return w == ("unsat" if f.endswith("-unsat.smt2") else "sat")

    with ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(one, files))
    return {
        "solver": name,
        "queries": len(files),
        "agreed": sum(1 for r in rs if r is True),
        "disagreed": sum(1 for r in rs if r is False),
        "undecided": sum(1 for r in rs if r is None),
    }


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def line_of(src, v):
    if v["kind"] == "assert" and v["code"] > 10000:
        src = open(os.path.join(VERIF, "harness", "src", "ast.rs" if v["code"] < 20000 else "model.rs")).read().split("\n")
        return src[v["code"] % 10000 - 1].strip()
    if v["kind"] == "assert" and 0 < v["code"] <= len(src):
        return src[v["code"] - 1].strip()
    return v["msg"]


def is_known(prop, v, text):
    for f in known():
        if f["property"] == prop and f["entry"] == v["entry"] and f["kind"] == v["kind"] and f["what"] in text:
            if "inputs" in f and f["inputs"] != v["inputs"]:
                continue
            return f
    return None


def decide(prop, tier):
    t0 = time.time()
    budget = 780 if tier == "thorough" else 540
    if "VERIF_BUDGET" in os.environ:
        budget = float(os.environ["VERIF_BUDGET"])
    os.makedirs(EVID, exist_ok=True)
    engine = build_engine()
    ll, lib = build_harness(prop, tier)
    t_build = time.time() - t0
    ents, src, covers = entries_of(prop)
    only = os.environ.get("VERIF_ENTRY")
    if only:
        ents = [e for e in ents if re.search(only, e[0])]
    names = [e[0] for e in ents]
    replay = compile_replay(prop, tier, lib, names, "")
    work = tempfile.mkdtemp(prefix="work-", dir=os.path.join(BUILD, prop))
    dump = os.path.join(work, "smt")
    os.makedirs(dump)
    jobs = []
    for name, o in ents:
        key = "deep" if tier == "thorough" else "shards"
        n = int(o.get(key, o.get("shards", 1)))
        for k in range(n):
            jobs.append((name, o, k, n))
    # Widest entries first.
    jobs.sort(key=lambda j: -j[3])
    end = t0 + budget
    stop = threading.Event()

    def one(job):
        name, o, k, n = job
        out = os.path.join(work, "%s.%d.json" % (name, k))
        left = max(5, end - time.time())
        cmd = [engine, "--module", ll, "--entry", name, "--out", out, "--shard", "%d/%d" % (k, n), "--claim", os.path.join(work, name + ".claim"), "--secs", "%.1f" % left,
               "--sample-every", o.get("sample", "16"), "--dump-every", o.get("dump", "37"), "--dump-dir", dump,
               "--steps", o.get("steps", "3000000"), "--repo", REPO + "/", "--solver-timeout", "60000"]
        if stop.is_set():
            return None
        with tempfile.TemporaryFile("w+", errors="replace", dir=work) as err:
            pr = subprocess.Popen(cmd, env=dict(ENV, RUST_BACKTRACE="0"), stdout=err, stderr=err)
            while True:
                try:
                    pr.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    # Somebody else has found a violation and it is one: enough.
                    if stop.is_set():
                        pr.kill()
                        pr.wait()
                        return None
            if pr.returncode != 0:
                err.seek(0)
                return {"entry": name, "crash": err.read()[-1500:] + " rc=%s" % pr.returncode}
        r = json.load(open(out))
        for v in r["violations"]:
            v["entry"], v["text"] = name, line_of(src, v)
            if not stop.is_set() and not is_known(prop, v, v["text"]) and reproduces(v, native(replay, name, [v["inputs"]], timeout=20)):
                stop.set()
        return r

    with ThreadPoolExecutor(CORES) as ex:
        reps = [r for r in ex.map(one, jobs) if r is not None]
    crashes = [r for r in reps if "crash" in r]
    reps = [r for r in reps if "crash" not in r]

    # Violations, replayed natively.
    viol = []
    for r in reps:
        for v in r["violations"]:
            v["entry"] = r["entry"]
            if not any(x["entry"] == v["entry"] and x["kind"] == v["kind"] and x["code"] == v["code"] and x["msg"] == v["msg"] for x in viol):
                viol.append(v)
    # Report the smallest first.
    viol.sort(key=lambda v: len(v["inputs"]))
    confirmed, spurious, knowns = [], [], []
    dev = None
    for v in viol:
        v["text"] = line_of(src, v)
        res = native(replay, v["entry"], [v["inputs"]], timeout=20)
        v["native_release"] = str(res[0])
        if reproduces(v, res):
            k = is_known(prop, v, v["text"])
            if k:
                knowns.append((v, k))
                continue
            if dev is None and not os.environ.get("VERIF_NODEV"):
                try:
                    _, dlib = build_harness(prop, tier, "dev")
                    dev = compile_replay(prop, tier, dlib, names, "-dev")
                except Broken:
                    dev = ""
            if dev:
                res2 = native(dev, v["entry"], [v["inputs"]], timeout=20)
                v["native_dev"] = str(res2[0])
                v["dev_reproduces"] = reproduces(v, res2)
                v["native_output"] = (res2[1] + res2[2])[-600:]
            confirmed.append(v)
        else:
            v["native_output"] = (res[1] + res[2])[-600:]
            spurious.append(v)

    # Translation validation: completed paths, natively, same observations.
    tv_total = tv_bad = 0
    tv_note = []
    by = {}
    for r in reps:
        by.setdefault(r["entry"], []).extend(r["samples"])
    for name, ss in by.items():
        ss = ss[:3000]
        if not ss:
            continue
        rc, out, err = native(replay, name, [s["inputs"] for s in ss], timeout=120)
        lines = [l for l in out.split("\n") if l]
        for k, s in enumerate(ss):
            want = " ".join(["OK"] + [str(x) for x in s["obs"]])
            tv_total += 1
            if k >= len(lines) or lines[k] != want:
                tv_bad += 1
                if len(tv_note) < 5:
                    tv_note.append("%s inputs=%s engine=[%s] native=[%s] rc=%s %s" % (name, s["inputs"], want, lines[k] if k < len(lines) else "", rc, err[-300:]))
                if k >= len(lines):
                    break
    cc = cross_check(dump, 60 if tier == "quick" else 400)

    lines = {}
    fns = set()
    cov = {}
    for r in reps:
        for f, ls in r["repo_lines"].items():
            lines.setdefault(f, set()).update(ls)
        fns.update(r["repo_functions"])
        for k, n in r["covers"].items():
            cov[int(k)] = cov.get(int(k), 0) + n
    unreached = [c for c in covers if c not in cov]
    unsupported = {}
    for r in reps:
        for k, n in r["unsupported"].items():
            unsupported[k] = unsupported.get(k, 0) + n
    tot = lambda k: sum(r[k] for r in reps)
    incomplete = sorted({r["entry"] for r in reps if r["incomplete"]} | (set(names) if stop.is_set() else set()))
    bounds = []
    for l in src:
        if l.startswith("//!"):
            bounds.append(l[3:].strip())
        else:
            break
    samples = [{"entry": n, "inputs": s["inputs"], "observed": s["obs"]} for n, ss in by.items() for s in ss[:2]][:40]
    per = {}
    for r in reps:
        p = per.setdefault(r["entry"], {"paths": 0, "forks": 0, "assertions": 0, "queries": 0, "solver_s": 0.0, "wall_s": 0.0, "max_inputs": 0})
        p["paths"] += r["paths"]
        p["forks"] += r["forks"]
        p["assertions"] += r["asserts"]
        p["queries"] += r["queries"]
        p["solver_s"] = round(p["solver_s"] + r["solver_seconds"], 3)
        p["wall_s"] = round(max(p["wall_s"], r["seconds"]), 2)
        p["max_inputs"] = max(p["max_inputs"], r["max_inputs"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("forks") + tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": tv_total - tv_bad,
            "samples": samples,
            "exhaustive": not incomplete and not unsupported and not crashes and not spurious,
            "explanation": "Symbolic execution of the optimised LLVM IR of /repo linked with the harness. states = symbolic states created (forks + completed paths); transitions = IR instructions executed symbolically; every completed path stands for all input values satisfying its path condition. Bounds are in 'bounds'; nothing is claimed outside them.",
            "bounds": " ".join(bounds),
            "entries": per,
            "paths_completed": tot("paths"),
            "paths_cut_by_assumptions": tot("cut"),
            "assertions_checked": tot("asserts"),
            "assertions_needing_a_query": tot("assert_queries"),
            "solver": {
                "name": "z3 " + (reps[0]["solver"] if reps else "?"),
                "queries": tot("queries"),
                "cache_hits": tot("cache_hits"),
                "sat": tot("sat"),
                "unsat": tot("unsat"),
                "unknown": tot("unknown"),
                "seconds": round(tot("solver_seconds"), 3),
                "slowest_query_s": max([r["max_query_seconds"] for r in reps] or [0]),
                "second_solver": cc,
            },
            "translation_validation": {"paths_replayed": tv_total, "mismatches": tv_bad, "notes": tv_note},
            "reachability_witnesses": {"declared": len(covers), "reached": len(covers) - len(unreached), "unreached_lines": unreached},
            "functions_encoded": sorted(fns),
            "repo_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
            "library_functions_encoded": max([r["library_functions"] for r in reps] or [0]),
            "unsupported": unsupported,
            "incomplete_entries": incomplete,
            "engine_failures": [c["crash"] for c in crashes],
            "unconfirmed": spurious,
            "known_findings": [v["text"] for v, _ in knowns],
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            "rustc/LLVM translate the source faithfully to the optimised IR that is executed (release profile, overflow checks on, panic=abort)",
            "the engine's IR semantics and z3 (sampled paths are replayed natively, sampled queries are given to a second solver)",
            "allocation never fails; std's hash seeds are a constant",
            "documented contracts of user-supplied parsers, closures, error types and token sources, as encoded by the symbolic children in harness/src",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    shutil.rmtree(work)

    print("%s %s: %d entries, %d paths, %d IR steps, %d assertions, %d queries (%.1f s solver), %d paths replayed natively, %.1f s"
          % (prop, tier, len(ents), tot("paths"), tot("steps"), tot("asserts"), tot("queries"), tot("solver_seconds"), tv_total, time.time() - t0))
    for v, k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("describe", v["text"])))
    for v in confirmed:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        n = 0
        while os.path.exists(os.path.join(rd, "%s-%d.json" % (prop, n))) and n < 50:
            n += 1
        p = os.path.join(rd, "%s-%d.json" % (prop, n))
        v["property"], v["tier"] = prop, tier
        json.dump(v, open(p, "w"), indent=1)
        print("  %s: %s %s" % (v["entry"], v["kind"], v["text"]))
        print("  inputs %s" % v["inputs"])
        for t in v["trace"][:6]:
            print("    at %s" % t[:300])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for c in crashes:
        print("ENGINE FAILURE in %s: %s" % (c["entry"], c["crash"]))
    for k, n in list(unsupported.items())[:8]:
        print("UNDECIDED: %d paths use something the executor does not model: %s" % (n, k[:400]))
    for v in spurious:
        print("UNDECIDED: not reproduced natively: %s %s %s inputs %s native=%s" % (v["entry"], v["kind"], v["text"], v["inputs"], v["native_release"]))
    for t in tv_note:
        print("TRANSLATION MISMATCH: " + t)
    if cc.get("disagreed"):
        print("SOLVERS DISAGREE: %s" % cc)
    if incomplete:
        print("INCOMPLETE (budget, violation cap or stopped at a violation): " + ", ".join(incomplete))
    if unreached and not only and not stop.is_set():
        print("WITNESSES NOT REACHED: lines %s of %s.rs" % (unreached, prop.lower()))
    if confirmed:
        return 1
    # Paths the executor could not follow, and counterexamples the real code does not
    # reproduce, are undecided: reported above and in the evidence, but no alarm. A check
    # that decided nothing has no answer to give.
    if crashes or tv_bad or cc.get("disagreed") or not tot("paths"):
        return 2
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            build_engine()
            return 0
        if a and a[0] == "--replay":
            v = json.load(open(a[1]))
            if v["property"] in PYTHON:
                return subprocess.call(["python3-vt", os.path.join(VERIF, "pysx/run.py")] + a)
            prop, tier = v["property"], v["tier"]
            _, lib = build_harness(prop, tier)
            names = [e[0] for e in entries_of(prop)[0]]
            exe = compile_replay(prop, tier, lib, names, "")
            res = native(exe, v["entry"], [v["inputs"]], timeout=20)
            print(res[1] + res[2])
            ok = reproduces(v, res)
            print("reproduced" if ok else "not reproduced", v["kind"], v["text"])
            return 1 if ok else 0
        prop = a[0].upper()
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if prop in PYTHON:
            return subprocess.call(["python3-vt", os.path.join(VERIF, "pysx/run.py"), prop, tier])
        return decide(prop, tier)
    except Broken as e:
        print("CHECK BROKEN: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
