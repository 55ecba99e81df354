"""python3-vt -m osa.check <property>   (run in /verif)"""
from __future__ import annotations

import importlib
import json
import os
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OSA_REPO", "/repo")
REHEARSAL_S = 120.0


def warmed(world, rep, mod):
    """If using the entry points the rules went through leaves anything behind in modules, classes or defaults, the
    rules are decided a second time in a program that has been used before."""
    from .interp import DEADLINE, OutOfTime
    from .report import known_findings
    from .rules import calls

    known = [(k.get("key"), k.get("found", "")) for k in known_findings()]
    if any((f.key, f.signature) not in known for f in rep.findings):
        return {"skipped": "the first pass has findings"}
    DEADLINE[0] = time.time() + REHEARSAL_S
    try:
        left, n = calls.warm(world)
    except OutOfTime:
        return {"skipped": "using the entry points before took longer than %d s" % REHEARSAL_S}
    DEADLINE[0] = time.time() + REHEARSAL_S
    kept = ["%s.%s" % (k, m[0]) for k, ms in world.keeps.items() for m in ms]
    note = {"entry_points_used_before": n, "state_left_behind": left[:20], "queries_that_leave_state": kept[:20]}
    if not left and not kept:
        return note
    world.used = True
    first, und, seen = len(rep.findings), len(rep.undecided), {f.key for f in rep.findings}
    try:
        mod.check(rep)
    except (Exception, OutOfTime) as e:  # the first pass stands
        note["second_pass"] = "%s: %s" % (type(e).__name__, e)
    new = [f for f in rep.findings[first:] if f.key not in seen]
    for f in new:
        f.what += " (when it has been used before: it keeps %s)" % ", ".join((left + kept)[:3])
    rep.findings[first:] = new
    note["second_pass_undecided"] = len(rep.undecided) - und
    del rep.undecided[und:]
    return note


def run(prop, res):
    from . import dag as D
    from . import equal
    from .interp import DEADLINE, OutOfTime
    from .report import Report, known_findings
    from .world import World

    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    equal.SEED = seed
    if thorough:
        equal.NF_TOTAL = 600.0
    t0 = time.time()
    world = World(os.path.join(REPO, "src"))
    rep = Report(prop, world, thorough)
    mod = importlib.import_module("osa.rules." + prop.lower())
    rep.unrolled = getattr(mod, "UNROLLED", False)
    DEADLINE[0] = t0 + (3000.0 if thorough else 600.0)
    try:
        mod.check(rep)
    except OutOfTime:
        if not rep.findings:
            raise
    visited = sorted(world.it.visited)
    again = warmed(world, rep, mod)
    wall = time.time() - t0
    hows = {}
    for _, _, h in rep.obs:
        hows[h] = hows.get(h, 0) + 1
    known = [k for k in known_findings() if k.get("property") == prop]
    new = []
    printed = set()
    for f in rep.findings:
        for k in known:
            if k.get("key") == f.key and k.get("found", "") == f.signature:
                line = "KNOWN-FINDING: property=%s %s" % (prop, k["what"])
                if line not in printed:
                    print(line)
                    printed.add(line)
                break
        else:
            new.append(f)
    print("%s: %d obligations over %d functions in %d files (%d lines) %s" % (
        prop, len(rep.obs), len(visited), sum(1 for m in world.it.modules if not m.startswith("osa_")), sum(world.it.files.values()), hows))
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or ""),
            "obligations": len(rep.obs),
            "decided_by": hows,
            "value_numbers": len(D._nodes),
            "comparisons": {k: v for k, v in equal.STATS.items() if k != "nf_time"},
            "files_analysed": sum(1 for m in world.it.modules if not m.startswith("osa_")),
            "lines_analysed": sum(world.it.files.values()),
            "functions_interpreted": visited,
            "call_edges": len(world.it.call_edges),
            "loops_summarised": len({(l.func, l.line) for l in world.it.loops}),
            "partial_operations_seen": len(world.it.hazards),
            "samples": ["%s @ %s: %s" % o for o in rep.obs[:: max(1, len(rep.obs) // 12)]][:14],
            "undecided": ["%s @ %s: %s" % u for u in rep.undecided],
            "left_to_unrolled_obligations": ["%s @ %s: %s" % u for u in rep.weak],
            "known_findings_reported": len(printed),
            "program_wide_state": again,
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "arithmetic is over the reals: rounding is out of scope except where a rule says otherwise",
            "equalities marked 'random' rest on agreement of the two value-number graphs at random 70-digit valuations and at every branch boundary"],
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if new:
        path = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(path, "w") as fh:
            for f in new:
                fh.write("rule %s\n  at %s\n  %s\n" % (f.key, f.construct, f.what))
                if f.witness:
                    fh.write("  for %s\n" % f.witness)
                fh.write("\n")
        for f in new[:12]:
            print("  %s\n    at %s\n    %s" % (f.key, f.construct, f.what))
            if f.witness:
                print("    for %s" % dict(list(f.witness.items())[:8]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        for u in rep.undecided[:6]:
            print("  undecided %s @ %s: %s" % u)
        res.append(1)
        return
    if rep.undecided or not rep.obs:
        for u in rep.undecided:
            print("UNDECIDED %s @ %s: %s" % u)
        res.append(2)
        return
    need = getattr(mod, "MIN_OBLIGATIONS", 1)
    if len(rep.obs) < need:
        print("UNDECIDED: only %d obligations, at least %d expected" % (len(rep.obs), need))
        res.append(2)
        return
    res.append(0)


def main():
    prop = sys.argv[1]
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    res = []
    err = []

    def go():
        try:
            run(prop, res)
        except BaseException:
            import traceback
            err.append(traceback.format_exc())

    if os.environ.get("OSA_TRACE"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["OSA_TRACE"]), repeat=True)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    if err:
        print(err[0])
        os._exit(2)
    sys.stdout.flush()
    os._exit(res[0])


if __name__ == "__main__":
    main()
