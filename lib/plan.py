"""Common part of C10 and C11."""
import os
import vf
def build(ctx):
    return ctx.exe("h_plan", [os.path.join(vf.VERIF, "harness/h_plan.cpp")], ["momentumopt"],
                   only=r"cntopt/|DynamicsState|PlannerSetting|TrajectoryGenerator|OrientationUtils", flags=['-DVF_DIR="%s"' % os.path.join(vf.VERIF, "harness")])
rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
def gen(ctx, kind, walks):
    return ctx.generate("ScheduleGen", consts={"Walks": walks, "Kind": '"%s"' % kind})
