"""Decide a property of pangram/bootstrap.py: run.py C20 quick|thorough
or run.py --replay FILE. Called by check.py."""
import importlib
import json
import os
import sys
import time
import types
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import engine
import symstr

VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence")
PATH = REPO + "/pangram/bootstrap.py"


def load(prop, tier):
    h = importlib.import_module(prop.lower())
    m = types.ModuleType("bootstrap")
    m.__file__ = PATH
    with open(PATH, encoding="utf-8") as f:
        source = f.read()
    if getattr(h, "STRINGS", False):
        m.__dict__.update(symstr.names())
        exec(symstr.compiled(source, PATH), m.__dict__)
    else:
        exec(compile(source, PATH, "exec"), m.__dict__)
    h.B = m
    h.DEEP = int(tier == "thorough")
    return h


def quiet():
    """What the tool prints is of no interest."""
    sys.stdout = open(os.devnull, "w")


def replay(h, entry, inputs, seen=None):
    f = getattr(h, entry)
    if seen is not None:
        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename == PATH:
                seen.add(getattr(frame.f_code, "co_qualname", frame.f_code.co_name))
        sys.setprofile(prof)
    try:
        return engine.execute(f, inputs=inputs, seconds=20)
    finally:
        sys.setprofile(None)


def main():
    out = sys.stdout
    if sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        h = load(v["property"], v["tier"])
        _, bad, _ = replay(h, v["entry"], v["inputs"])
        print("reproduced: %s" % bad if bad else "not reproduced")
        return 1 if bad else 0
    prop, tier = sys.argv[1:3]
    t0 = time.time()
    h = load(prop, tier)
    deadline = t0 + float(os.environ.get("VERIF_BUDGET", 780 if tier == "thorough" else 540))
    quiet()
    say = lambda s: print(s, file=out, flush=True)
    sys.setrecursionlimit(3000)
    pool = engine.make_pool()
    stats, samples, seen, mismatches, replayed, bad = {}, [], set(), [], 0, []
    only = os.environ.get("VERIF_ENTRY")
    for f in h.ENTRIES:
        if only and only not in f.__name__:
            continue
        st = engine.run(f, deadline, pool)
        stats[f.__name__] = st
        for inputs, observed in st["samples"][:getattr(h, "REPLAYS", 400)]:
            p, text, _ = replay(h, f.__name__, inputs, seen)
            replayed += 1
            if text is not None or p.observed != observed:
                mismatches.append((f.__name__, inputs, text))
        for inputs, observed in st["samples"][:2] + st["samples"][-1:]:
            samples.append({"entry": f.__name__, "inputs": inputs, "observed": [str(x) for x in observed]})
        for text, inputs in st["violations"]:
            bad.append((f.__name__, text, inputs))
            break
    pool.terminate()
    rc = 0
    undecided = {k: sorted(s["undecided"]) for k, s in stats.items() if s["undecided"]}
    if mismatches:
        # The model and the real thing disagree: what was decided for these
        # entries does not count.
        say("UNDECIDED: symbolic and concrete runs differ: %s" % (mismatches[0],))
        for e, _, _ in mismatches:
            undecided.setdefault(e, []).append("symbolic and concrete runs differ")
    work = os.environ.get("VERIF_BUILD", VERIF + "/.build")
    os.makedirs(work + "/replays", exist_ok=True)
    reported = []
    for k, (entry, text, inputs) in enumerate(bad):
        confirmed = None
        if inputs is not None:
            _, confirmed, _ = replay(h, entry, inputs)
        if confirmed is None:
            say("UNDECIDED: %s: %s does not happen on concrete values %s" % (entry, text, inputs))
            undecided.setdefault(entry, []).append("%s (not confirmed)" % text)
            continue
        path = "%s/replays/%s-%s-%d.json" % (work, prop, tier, k)
        json.dump({"property": prop, "tier": tier, "entry": entry, "inputs": inputs, "text": confirmed}, open(path, "w"))
        say("%s: %s (inputs %s)" % (entry, confirmed, inputs))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        reported.append({"entry": entry, "text": confirmed, "inputs": inputs})
        rc = 1
    left = {k: s["left"] for k, s in stats.items() if s["left"] and not s["violations"]}
    if left:
        say("INCOMPLETE: open paths when the time was up: %s" % left)
    if undecided:
        say("UNDECIDED: %s" % undecided)
    tot = lambda k: sum(s[k] for s in stats.values())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("cut") + tot("forks"),
            "transitions": tot("queries") + tot("asserted"),
            "traces_validated_against_impl": replayed,
            "samples": samples,
            "exhaustive": not left and not bad and not undecided,
            "undecided": undecided,
            "explanation": "Symbolic execution of pangram/bootstrap.py (loaded from /repo on this run) with symbolic names, lengths and structure; states = paths and branch points, transitions = branch and assertion decisions. Every path stands for all values satisfying its condition.",
            "bounds": " ".join(h.__doc__.split()),
            "entries": {k: {x: (len(v) if isinstance(v, (list, set)) else v) for x, v in s.items() if x not in ("samples",)} for k, s in stats.items()},
            "assertions_checked": tot("asserted"),
            "assertions_needing_a_query": tot("needed"),
            "solver": {"name": "z3 " + z3.get_version_string(), "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "seconds": round(tot("solver_s"), 3)},
            "reachability_witnesses": {k: sorted(s["covered"]) for k, s in stats.items()},
            "functions_encoded": sorted(seen),
            "violations": reported,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open("%s/%s.json" % (EVIDENCE, prop), "w"), indent=1)
    say("%s %s: %d entries, %d paths, %d assertions, %d queries (%.1f s solver), %d paths replayed concretely, %.1f s%s" % (
        prop, tier, len(stats), tot("paths"), tot("asserted"), tot("queries"), tot("solver_s"), replayed, time.time() - t0, "" if rc else " - OK"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
