"""Runs all goals of a property over worker processes; writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from multiprocessing.connection import wait

from . import engine, loader, solver

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def worker(conn, prop, tier, seed):
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("props." + prop)
    goals = mod.goals(tier)
    known = load_known(prop)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        gi, prefixes, until, low = msg
        cfg = engine.Cfg(tier)
        e = engine.Engine(goals[gi], cfg, seed)
        if low:
            cfg.low()
        e.known = known
        viol = err = None
        for k in solver.STATS:
            solver.STATS[k] = 0
        left = []
        try:
            left = e.explore(prefixes, until)
        except engine.Violation as v:
            viol = v.info
            left = []
        except BaseException:
            err = traceback.format_exc()
        conn.send(dict(gi=gi, n=e.n, notes=e.notes, undecided=e.undecided, funcs=sorted(e.funcs),
                       samples=e.samples, labels=e.labels, viol=viol, err=err, left=left,
                       known=e.known_hits, stats=dict(solver.STATS)))


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == prop and k.get("status") == "open"]


def run_property(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    mod = importlib.import_module("props." + prop)
    goals = mod.goals(tier)
    budget = getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 1500)
    deadline = t0 + budget
    extra = 60 if tier == "quick" else 300
    low = False
    tot = dict()
    st = dict()
    res = dict(notes=[], undecided={}, funcs=set(), samples=[], labels={}, known={}, errs=[], pergoal={})
    ctx = mp.get_context("fork")
    queue = []
    for gi, g in enumerate(goals):
        if only and only not in g.name:
            continue
        queue.append((g.weight, gi, [(0, [])]))
    queue.sort(key=lambda x: -x[0])
    queue = [(gi, p) for _, gi, p in queue]
    procs = {}

    def spawn():
        a, b = ctx.Pipe()
        pr = ctx.Process(target=worker, args=(b, prop, tier, seed), daemon=True)
        pr.start()
        b.close()
        procs[a] = dict(p=pr, busy=None, t=0)

    nw = min(NPROC, max(1, len(queue) * 3))
    for _ in range(nw):
        spawn()
    viol = None
    unexplored = 0
    hard = 240 if tier == "quick" else 1500
    while queue or any(w["busy"] is not None for w in procs.values()):
        now = time.time()
        if now > deadline and not low and queue:
            # the rest of the time goes into a quick search of the paths not reached yet
            low = True
            for gi, p in queue:
                res["undecided"][goals[gi].name + ": path budget exhausted"] = len(p)
        if now > deadline + extra and queue:
            unexplored += sum(len(p) for _, p in queue)
            for gi, p in queue:
                res["undecided"][goals[gi].name + ": path budget exhausted"] = len(p)
            queue = []
        idle = [c for c, w in procs.items() if w["busy"] is None]
        for c in idle:
            if not queue:
                break
            gi, prefixes = queue.pop(0)
            nidle = len(idle)
            if len(prefixes) > 1 and nidle > 1:
                half = len(prefixes) // 2
                queue.append((gi, prefixes[:half]))
                prefixes = prefixes[half:]
            # give the others something to do as soon as possible
            sl = 0.6 if len(queue) < nw else 3.0
            procs[c].update(busy=(gi, prefixes), t=now)
            c.send((gi, prefixes, min(deadline + extra if low else deadline, now + sl), low))
        busy = [c for c, w in procs.items() if w["busy"] is not None]
        for c in wait(busy, timeout=0.5):
            w = procs[c]
            try:
                r = c.recv()
            except EOFError:
                res["errs"].append(f"worker died on {goals[w['busy'][0]].name}")
                res["undecided"][goals[w["busy"][0]].name + ": worker died"] = 1
                del procs[c]
                spawn()
                continue
            w["busy"] = None
            g = goals[r["gi"]]
            for k, v in r["n"].items():
                tot[k] = tot.get(k, 0) + v
            pg = res["pergoal"].setdefault(g.name, {})
            for k, v in r["n"].items():
                pg[k] = pg.get(k, 0) + v
            pg["solver_s"] = pg.get("solver_s", 0) + r["stats"]["time"]
            for k, v in r["stats"].items():
                st[k] = st.get(k, 0) + v
            for x in r["notes"]:
                s = f"{g.name}: {x}"
                if s not in res["notes"]:
                    res["notes"].append(s)
            for x in r["undecided"]:
                s = f"{g.name}: {x}"
                res["undecided"][s] = res["undecided"].get(s, 0) + 1
            res["funcs"].update(r["funcs"])
            res["samples"] += r["samples"][:2]
            for k, v in r["labels"].items():
                k = g.name + ": " + k
                res["labels"][k] = res["labels"].get(k, 0) + v
            res["known"].update(r["known"])
            if r["err"]:
                res["errs"].append(r["err"])
                res["undecided"][goals[r["gi"]].name + ": engine error"] = 1
            if r["viol"] and viol is None:
                viol = r["viol"]
            if r["left"]:
                queue.append((r["gi"], r["left"]))
        if viol:
            break
        for c, w in list(procs.items()):
            if w["busy"] is not None and time.time() - w["t"] > hard:
                w["p"].kill()
                w["p"].join()
                gi = w["busy"][0]
                res["undecided"][goals[gi].name + ": worker exceeded its time limit"] = 1
                tot["undecided"] = tot.get("undecided", 0) + 1
                del procs[c]
                spawn()
    for c, w in procs.items():
        w["p"].kill()
    for c, w in procs.items():
        w["p"].join()
    wall = time.time() - t0
    return dict(goals=goals, tot=tot, stats=st, res=res, viol=viol, wall=wall, unexplored=unexplored, mod=mod)


def replay_file(prop, path):
    with open(path) as fh:
        r = json.load(fh)
    mod = importlib.import_module("props." + prop)
    goals = {g.name: g for t in ("quick", "thorough") for g in mod.goals(t)}
    g = goals[r["goal"]]
    e = engine.Engine(g, engine.Cfg("quick"), 1)
    cenv, exc = e.concrete(r["values"], r["choices"])
    return cenv, exc


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--goal")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    if a.replay:
        cenv, exc = replay_file(prop, a.replay)
        for l, d in cenv.failures:
            print(f"  {l}: {d}")
        if cenv.failures:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay: the property holds on this input")
        return 0
    try:
        R = run_property(prop, a.tier, seed, a.goal, a.v)
    except Exception:
        traceback.print_exc()
        return 2
    tot, st, res = R["tot"], R["stats"], R["res"]
    n = lambda k: int(tot.get(k, 0))
    ngoals = [g for g in R["goals"] if not a.goal or a.goal in g.name]
    evid = dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=n("decisions") + n("paths"), transitions=n("forks") + n("decisions"),
            traces_validated_against_impl=n("validated"),
            samples=res["samples"][:8] or [dict(note="no completed path")],
            exhaustive=not res["undecided"] and not R["unexplored"],
            functions_encoded=sorted(res["funcs"]),
            bounds=[dict(goal=g.name, bounds=g.bounds) for g in ngoals],
            paths=n("paths"), infeasible_paths=n("infeasible"),
            obligations=n("obligations"),
            decided=dict(normal_form=n("by_norm"), path_constant=n("by_const"), solver_exact=n("by_solver"),
                         solver_within_tolerance=n("by_margin"), solver_sliced_inputs_fixed=n("by_slice"),
                         undecided=n("undecided")),
            solver=dict(queries=int(st.get("queries", 0)), unsat=int(st.get("unsat", 0)), sat=int(st.get("sat", 0)),
                        unknown=int(st.get("unknown", 0)), external=int(st.get("external", 0)),
                        time_s=round(st.get("time", 0.0), 2)),
            witness_paths_not_replayed=n("unvalidated"), encoding_mismatches=n("mismatch"),
            unexplored_prefixes=R["unexplored"], undecided=sorted(res["undecided"])[:60], notes=res["notes"][:40],
            obligation_labels=res["labels"], per_goal=res["pergoal"]),
        assumptions=list(getattr(R["mod"], "ASSUMES", [])) + COMMON,
        wall_s=round(R["wall"], 2), violations=1 if R["viol"] else 0)
    if not a.goal:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(evid, fh, indent=1, default=str)
    print(f"{prop} [{a.tier}] goals={len(ngoals)} paths={n('paths')} obligations={n('obligations')} "
          f"(nf {n('by_norm')}, const {n('by_const')}, solver {n('by_solver')}, margin {n('by_margin')}, "
          f"sliced {n('by_slice')}, undecided {n('undecided')}) queries={int(st.get('queries', 0))} "
          f"solver={st.get('time', 0):.1f}s validated={n('validated')} wall={R['wall']:.1f}s")
    if a.v:
        for gname, pg in res["pergoal"].items():
            print("   ", gname, {k: (round(v, 1) if isinstance(v, float) else v) for k, v in pg.items() if v})
    for e in res["errs"][:3]:
        print("ENGINE ERROR:\n" + e)
    for x in res["notes"][:10]:
        print("note:", x)
    for x in sorted(res["undecided"])[:12]:
        print("INCONCLUSIVE:", x)
    for k, info in sorted(res["known"].items()):
        kf = [f for f in load_known(prop) if f["id"] == k][0]
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    if R["viol"]:
        v = R["viol"]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{prop}-{h}.json")
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1, default=str)
        print(f"  {v['goal']}: {v['label']}: {v['detail']}")
        print("  inputs: " + json.dumps(v["values"]) + (f" choices {v['choices']}" if v["choices"] else ""))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if n("mismatch") or n("spurious"):
        print(f"INCONCLUSIVE: {n('mismatch')} witnesses differ from the real code, {n('spurious')} solver models did "
              "not reproduce on it")
    if n("obligations") == 0:
        print(f"ERROR: no verdict for {prop}: engine errors {len(res['errs'])}, obligations {n('obligations')}")
        return 2
    return 0


COMMON = [
    "floating-point numbers are treated as exact reals (rounding, overflow and NaN produced only by rounding are "
    "outside the claim); every completed path is additionally run on one witness with the real float code",
    "numpy/math entry points used by the code are replaced by exact symbolic counterparts (symx/npshim.py); "
    "matplotlib is a stub unless the check says otherwise",
]
