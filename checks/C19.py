import os
import vf

def run(ctx):
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_export.py")]
    ctx.model("ResampleMC", consts={} if ctx.quick else {"MaxT": 9}, must_cover=["Nearest", "Side"], timeout=600)
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    for kind, q, t, chunk in (("query", 600, 10000, 200), ("old", 80, 1500, 80), ("qp", 80, 1200, 80), ("lqr", 40, 400, 40)):
        sc = ctx.generate("ResampleGen", consts={"Walks": q if ctx.quick else t, "Kind": '"%s"' % kind})
        ctx.sample(sc[0])
        ctx.judge(py, sc, "ResampleTrace", rec, chunk=chunk, name=kind)
