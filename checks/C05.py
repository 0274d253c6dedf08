import glob, os
import vf

def records(i, sc, raw):
    k = [c for c in sc["calls"]]
    out = []
    for j, r in enumerate(raw):
        c = k[j] if j < len(k) else k[-1]
        out.append(dict(r, feas=c["feas"], want=c["x"]) if r["event"] == "solve" else {"event": "nothing"})
    return out or [{"event": "nothing"}]

def run(ctx):
    exe = ctx.exe("h_qp", sorted(glob.glob(os.path.join(vf.VERIF, "harness/h_qp*.cpp"))), opt="-O1")
    ctx.model("QpMC", consts={} if ctx.quick else {"MaxRows": 2, "Size": 1})
    sc = ctx.generate("QpGen", consts={"Walks": 4000 if ctx.quick else 60000, "MaxN": 5 if ctx.quick else 6}, timeout=900)
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    calls = [c for s in sc for c in s["calls"]]
    ctx.extra["programs_feasible"] = sum(c["feas"] for c in calls)
    ctx.extra["programs_infeasible"] = sum(not c["feas"] for c in calls)
    ctx.extra["programs_dependent_equalities"] = sum(len(c["E"]) > 1 for c in calls)
    ctx.judge([exe], sc, "QpTrace", records, chunk=15000)
