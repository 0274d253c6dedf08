import os
import vf

def records(i, sc, raw):
    unb = any(o["op"] == "optimize" and o["unb"] for o in sc["ops"])
    strong = all(o["strong"] for o in sc["ops"] if o["op"] == "optimize")
    out = [dict({k: r[k] for k in r if k not in ("lin",)}, feas=sc["feas"], isbin=sc["isbin"], bnbiters=sc["bnbiters"], unb=unb, strong=strong)
           if r["event"] == "optimize" else {"event": r["event"]} for r in raw]
    return out or [{"event": "nothing"}]

def run(ctx):
    exe = ctx.exe("h_model", [os.path.join(vf.VERIF, "harness/h_model.cpp")], ["solver"])
    ctx.model("BnB")
    sc = ctx.generate("BinGen", consts={"Walks": 1500 if ctx.quick else 20000, "MaxBin": 5 if ctx.quick else 6}, timeout=900)
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    for k in ("opt", "pinf", "dinf"):
        ctx.extra["programs_" + k] = sum(o["op"] == "optimize" and o["kind"] == k for s in sc for o in s["ops"])
    ctx.judge([exe, os.path.join(vf.VERIF, "harness/solver_stgs.yaml")], sc, "BinTrace", records, chunk=15000)
