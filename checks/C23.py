import os
import vf

def run(ctx):
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_kin.py")]
    ctx.model("KinPlanMC", must_cover=["Stance", "Flight"], consts={} if ctx.quick else {"N": 6}, timeout=900)
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    for kind, q, t, chunk in (("init", 200, 3000, 50), ("snd", 250, 4000, 50), ("plan", 800, 16000, 100)):
        sc = ctx.generate("KinPlanGen", consts={"Walks": q if ctx.quick else t, "Kind": '"%s"' % kind})
        ctx.sample(sc[0])
        ctx.judge(py, sc, "KinPlanTrace", rec, chunk=chunk, name=kind)
