#!/usr/bin/env python3
"""Decides one property of the current tree of /repo.

  check.py C05                    quick tier (or the tier named by VERIF_TIER)
  check.py C05 --tier thorough
  check.py C05 --replay FILE      runs a recorded violation again

Exit 0: held on everything explored; 1: "VIOLATION property=<id> replay=<path>"; 2: the check itself failed."""
import argparse, concurrent.futures as cf, copy, json, os, random, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import core, plans

AGAIN = 10 ** 6      # distance of the record ids of further observations of a case


def mine(pid, clauses):
    return sorted(c for c in clauses if "." not in c or c.split(".")[0] == pid)


def run_stream(ctx, stream, cases):
    """Runs the cases against the crate and validates what was recorded; returns (records, {id: clauses})."""
    for i, c in enumerate(cases):
        c["id"] = i + 1
    hcases = [stream.prepare(ctx, c) for c in cases] if stream.prepare else cases
    obs = core.run_cases(ctx, hcases, shards=2, threads=6) if stream.crew else core.run_cases(ctx, hcases)
    recs = []
    cases = [c for c in cases if c["id"] in obs]      # all, unless the implementation hung
    for c in cases:
        for k, o in enumerate([obs[c["id"]]] + obs[c["id"]].get("more", [])):
            rec = {"id": c["id"] + k * AGAIN, "c": stream.slim(c) if stream.slim else c, "st": o["st"]}
            if o["st"] == "ok":
                rec["o"] = stream.post(c, o["obs"]) if stream.post else o["obs"]
            recs.append(rec)
    bad, broken = core.validate(ctx, stream.module, recs)
    return cases, recs, bad, broken


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = plans.PLANS[a.id]
    start = time.time()
    before = core.repo_state()
    ctx = core.Ctx(a.id, a.tier, seed)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    violations, streams = [], {}
    validated = 0
    samples = []

    def take(stream, cases, tag):
        nonlocal validated
        if not cases or violations:
            return
        cases, recs, bad, broken = run_stream(ctx, stream, cases)
        of = {c["id"]: c for c in cases}
        by_id = {r["id"]: (of[r["id"] % AGAIN], r) for r in recs}
        s = streams.setdefault(stream.name, {"traces": 0, "steps": 0})
        s["traces"] += len(recs)
        validated += len(recs)
        if len([x for x in samples if x["stream"] == stream.name]) < 1 and recs:
            k = recs[len(recs) // 2]
            text = json.dumps(k)
            samples.append({"stream": stream.name, "trace": k if len(text) < 3000 else text[:3000] + "..."})
        for k in sorted(bad):
            names = mine(a.id, bad[k])
            if names:
                violations.append({"property": a.id, "stream": stream.name, "origin": tag, "clauses": names,
                                   "case": by_id[k][0], "record": by_id[k][1]})
        if broken and not violations:
            raise core.ToolError(broken[0])

    try:
        if a.replay:
            v = json.load(open(a.replay))
            core.build_harness()
            stream = plans.STREAMS[v["stream"]]
            take(stream, [copy.deepcopy(v["case"]) for _ in range(300 if stream.crew else 1)], "replay")
        else:
            with cf.ThreadPoolExecutor(2) as ex:
                job = ex.submit(core.build_harness)
                generated = {}
                for m, quick, thorough in plan.models:
                    core.model_check(ctx, m, thorough if ctx.thorough() else quick)
                for stream, module, conv, quick, thorough in plan.generated:
                    g = core.generate(ctx, module, thorough if ctx.thorough() else quick)
                    generated.setdefault(stream, []).extend(conv(g))
                job.result()
            for name, cases in generated.items():
                for k in range(0, len(cases), 20000):
                    take(plans.STREAMS[name], cases[k:k + 20000], "enumerated by TLC")
                streams.setdefault(name, {})["enumerated"] = len(cases)
            for name, n in plan.random:
                r = random.Random("%s %s %d" % (name, "", seed))
                take(plans.STREAMS[name], [plans.STREAMS[name].make(r) for _ in range(n)], "seed %d" % seed)
            rounds = 0
            budget = float(os.environ.get("VERIF_BUDGET", "760"))
            spent = time.time() - start
            while ctx.thorough() and not violations and plan.random:
                t = time.time()
                if t - start + 1.3 * (spent if rounds else 0) > budget:
                    break
                rounds += 1
                for name, n in plan.random:
                    r = random.Random("%s %d %d" % (name, rounds, seed))
                    take(plans.STREAMS[name], [plans.STREAMS[name].make(r) for _ in range(4 * n)],
                         "seed %d round %d" % (seed, rounds))
                    if time.time() - start > budget:
                        break
                spent = time.time() - t
    except core.ToolError as e:
        print("ERROR", e)
        ctx.close()
        return 2
    except BaseException:
        traceback.print_exc()
        ctx.close()
        return 2
    ctx.close()
    if core.repo_state() != before:
        print("ERROR the check changed tracked files of /repo")
        return 2
    if not a.replay:
        ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                           "traces_validated_against_impl": validated, "samples": samples,
                           "models": ctx.models, "streams": streams, "covers": plans.COVERS[a.id]},
              "assumptions": plans.ASSUMPTIONS, "wall_s": round(time.time() - start, 1),
              "violations": len(violations)}
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d states, %d traces of the implementation validated, %d violations, %.1f s" %
          (a.id, a.tier, ctx.states, validated, len(violations), time.time() - start))
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        out = os.path.join(core.VERIF, "out")
        os.makedirs(out, exist_ok=True)
        for k, v in enumerate(violations[:3]):
            p = os.path.join(out, "%s-%d.json" % (a.id, k + 1))
            json.dump(v, open(p, "w"), indent=1)
            print("  %s: %s (%s, %s)" % (p, ", ".join(v["clauses"]), v["stream"], v["origin"]))
        print("VIOLATION property=%s replay=%s" % (a.id, os.path.join(out, "%s-1.json" % a.id)))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
