import os
import vf

def records(i, sc, raw):
    out = [dict(r, xs=sc["xs"]) if r["event"] == "optimize" else r for r in raw]
    return out or [{"event": "nothing"}]

def run(ctx):
    exe = ctx.exe("h_model", [os.path.join(vf.VERIF, "harness/h_model.cpp")], ["solver"])
    sc = ctx.generate("ModelGen", consts={"Walks": 2500 if ctx.quick else 30000}, timeout=900)
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    ctx.extra["optimisations"] = sum(o["op"] == "optimize" for s in sc for o in s["ops"])
    ctx.judge([exe, os.path.join(vf.VERIF, "harness/solver_stgs.yaml")], sc, "ModelTrace", records, chunk=15000)
