"""Common part of C12, C13 and C22: generated robots and contact plans run through the centroidal planner."""
import os
import vf
def build(ctx, **k):
    return ctx.exe("h_dyn", [os.path.join(vf.VERIF, "harness/h_dyn.cpp")], ["momentumopt", "solver"],
                   only=r"cntopt/|DynamicsState|DynamicsOptimizer|KinematicsState|PlannerSetting|TrajectoryGenerator|OrientationUtils|/solver/",
                   flags=['-DVF_DIR="%s"' % os.path.join(vf.VERIF, "harness"), '-DCFG_SRC_PATH="%s"' % (vf.REPO + "/momentumopt/config/")], **k)
rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
def gen(ctx, kind, walks):
    return ctx.generate("DynamicsGen", consts={"Walks": walks, "Kind": '"%s"' % kind})
def plans(ctx, cfg):
    exe = build(ctx)
    ctx.model("DynamicsMC", consts={} if ctx.quick else {"Steps": 4}, must_cover=["Flight", "OneFoot", "TwoFeet"], timeout=800)
    for kind, q, t in (("dyn", 500, 4000), ("time", 60, 400)):
        sc = gen(ctx, kind, q if ctx.quick else t)
        ctx.sample(sc[0])
        ctx.judge([exe], sc, "DynamicsTrace", rec, cfg=cfg, chunk=1000, name=kind)
