import os
import vf

def run(ctx):
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_ik.py")]
    ctx.model("FixPointMC")
    ctx.model("KinematicsMC", consts={} if ctx.quick else {"NQ": 3, "NT": 2}, timeout=900)
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    for kind, q, t, chunk in (("vel", 1000, 20000, 250), ("acc", 600, 12000, 200)):
        sc = ctx.generate("KinematicsGen", consts={"Walks": q if ctx.quick else t, "Kind": '"%s"' % kind})
        ctx.sample(sc[0])
        ctx.judge(py, sc, "KinematicsTrace", rec, chunk=chunk, name=kind)
