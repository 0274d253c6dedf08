import os
import vf

def run(ctx):
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_clqr.py")]
    ctx.model("CentroidalMC", consts={} if ctx.quick else {"Horizon": 5}, timeout=600)
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    for kind, q, t, chunk in (("dyn", 400, 8000, 200), ("cost", 150, 3000, 150), ("gain", 100, 1500, 25)):
        sc = ctx.generate("CentroidalGen", consts={"Walks": q if ctx.quick else t, "Kind": '"%s"' % kind})
        ctx.sample(sc[0])
        ctx.judge(py, sc, "CentroidalTrace", rec, chunk=chunk, name=kind)
