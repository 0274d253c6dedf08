import os
import vf

def build(ctx):
    return ctx.exe("h_lqr", [os.path.join(vf.VERIF, "harness/h_lqr.cpp")], ["solver_lqr", "solver"],
                   flags=['-DCFG_PATH="%s/solver_lqr/config/"' % vf.REPO])

def judge(ctx, exe, cfg, kinds):
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    for kind, q, t, chunk in kinds:
        sc = ctx.generate("LqrGen", consts={"Walks": q if ctx.quick else t, "Kind": '"%s"' % kind})
        ctx.sample(sc[0])
        ctx.judge([exe], sc, "LqrTrace", rec, cfg=cfg, chunk=chunk, name=kind)
