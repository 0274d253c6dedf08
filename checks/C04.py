import os
import vf

def num(v):
    return float(v) if isinstance(v, str) else v

def records(i, sc, raw):
    out = []
    for r in raw:
        if r["event"] == "run":
            r = dict(r, set={k: sc["set"][k] for k in ("ls", "maxit", "maxls", "past")}, bad=sc["bad"], strict=sc.get("strict", False), prog=sc["prog"], ptr=sc["ptr"], **{"class": sc["class"]})
        out.append(r)
    return out or [{"event": "nothing"}]

def run(ctx):
    exe = ctx.exe("h_lbfgs", [os.path.join(vf.VERIF, "harness/h_lbfgs.cpp")], ["solver"], only="Lbfgs")
    ctx.model("LbfgsMC", consts={"Ranks": "{0, 1}" if ctx.quick else "{0, 1, 2}"})
    sc = ctx.generate("LbfgsGen", consts={"Walks": 6000 if ctx.quick else 60000}, timeout=900)
    for s in sc:
        if "set" in s: s["set"] = {k: num(v) for k, v in s["set"].items()}
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    ctx.judge([exe], sc, "LbfgsTrace", records, chunk=10000)

    # a smooth convex function on which the More-Thuente search gives up (known finding)
    st = dict(m=6, epsilon=1e-3, past=0, delta=0, maxit=0, ls=0, maxls=40, minstep=1e-20, maxstep=1e20, ftol=1e-4, wolfe=0.5, gtol=0.4, xtol=1e-16)
    one = {"class": "nice", "n": 1, "nn": 1, "obj": {"kind": "quartic", "terms": [{"c": 3, "b": -1, "a": [1]}], "scale": -1, "offset": 0}, "x": [16],
           "set": st, "bad": [], "ptr": False, "prog": True, "stopat": 0, "stopcode": 1, "strict": True}
    ctx.judge([exe], [one], "LbfgsTrace", records, name="morethuente", key=lambda i, s, w: "morethuente:quartic-3(x-1):" + ("solved" if w == '"{\\"solved\\"}"' else "other"))
