import json, os
import vf

def records(i, sc, raw):
    out, n = [], 0
    want = [p for p in sc["probs"] if p["ranks"]]
    for r in raw:
        if r["event"] == "solved":
            p = want[n]; n += 1
            r = dict(r, want=[{"r": k["r"], "v": k["v"], "nul": k["nul"]} for k in p["ranks"]])
        elif r["event"] == "end":
            r = dict(r, solved=n, expected=len(want))
            STAT["runs"] += 1; STAT["exact"] += (r["slips"] == 0 and r["rest"] == 0); STAT["freed"] += r["free"]
        out.append(r)
    return out or [{"event": "nothing"}]

STAT = {"runs": 0, "exact": 0, "freed": 0}

def run(ctx):
    exe = ctx.exe("h_handoff", [os.path.join(vf.VERIF, "harness/h_handoff.cpp")], [], flags=["-DVF_POINTS"], libs=["-rdynamic", "-ldl"])
    ctx.model("HandoffMC", consts={"MaxRanks": 1} if ctx.quick else {})
    # hierarchies with certified answers, as histories of one object: with and without
    # re-initialisation, destroyed right after it, never initialised
    hs = ctx.generate("HqpGen", consts={"Walks": 600 if ctx.quick else 4000, "MaxN": 3, "MaxRanks": 3, "MaxProblems": 2})
    def fits(s):
        return all(p["n"] <= 4 and all(len(k["B"]) <= 6 for k in p["ranks"]) and sum(len(k["A"]) for k in p["ranks"]) <= 8 for p in s["probs"])
    hists = [[]]
    for i, s in enumerate([s for s in hs if fits(s)]):
        ps = [dict(p, init=(j == 0 or p["init"])) for j, p in enumerate(s["probs"])]
        if i % 9 == 0: ps.append({"init": True, "ranks": [], "n": 1})
        if i % 13 == 0: ps.insert(0, {"init": True, "ranks": [], "n": 1})
        hists.append(ps)
    kinds = lambda ps: [{"init": p["init"], "ranks": [k["kind"] for k in p["ranks"]]} for p in ps]
    by = {}
    for ps in hists: by.setdefault(json.dumps(kinds(ps)), []).append(ps)
    pats = [json.loads(k) for k in sorted(by)]
    size = lambda p: sum(1 + len(q["ranks"]) for q in p)
    def schedules(ps, name, **c):
        path = os.path.join(ctx.rundir, name)
        with open(path, "w") as f:
            for p in ps: f.write(json.dumps({"probs": p}) + "\n")
        return ctx.generate("HandoffGen", consts=c, env={"PATTERNS": path}, timeout=900)
    small = [p for p in pats if size(p) <= (3 if ctx.quick else 4)]
    sch = schedules(small, "small.ndjson", Preempt=2 if ctx.quick else 3, Walks=0)
    ctx.extra["schedules_exhaustive"] = len(sch)
    rnd = schedules(pats, "all.ndjson", Preempt=0, Spur=0, Walks=3000 if ctx.quick else 40000)
    rnd = [s for s in rnd if s["w"] > 0]
    ctx.extra["schedules_random"] = len(rnd)
    scen, used = [], {}
    for s in sch + rnd:
        k = json.dumps(s["probs"]); n = used[k] = used.get(k, -1) + 1
        scen.append({"sched": s["sched"], "late": (n + len(scen)) % 2 == 1, "fine": s["fine"], "probs": by[k][n % len(by[k])]})
    ctx.sample(scen[0]); ctx.sample(scen[-1])
    ctx.judge([exe], scen, "HandoffTrace", records, chunk=15000)
    ctx.extra.update({"runs": STAT["runs"], "runs_following_the_schedule_exactly": STAT["exact"], "runs_released": STAT["freed"]})
