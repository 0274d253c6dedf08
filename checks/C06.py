import glob, os
import vf

def records(i, sc, raw):
    out = []
    for j, r in enumerate(raw):
        if r["event"] == "solved":
            p = sc["probs"][j]
            r = dict(r, want=[{"r": k["r"], "v": k["v"]} for k in p["ranks"]])
        out.append(r)
    return out or [{"event": "nothing"}]

def run(ctx):
    exe = ctx.exe("h_hqp", sorted(glob.glob(os.path.join(vf.VERIF, "harness/h_hqp*.cpp"))), ["solver"])
    ctx.model("HqpMC", consts={} if ctx.quick else {"First": 2, "Total": 3})
    sc = ctx.generate("HqpGen", consts={"Walks": 1500 if ctx.quick else 20000}, timeout=900)
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    ctx.extra["hierarchies"] = sum(len(s["probs"]) for s in sc)
    ctx.extra["ranks_in_conflict"] = sum(any(r["r"]) or any(r["v"]) for s in sc for p in s["probs"] for r in p["ranks"])
    ctx.judge([exe], sc, "HqpTrace", records, chunk=15000)
