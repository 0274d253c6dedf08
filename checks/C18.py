import os
import plan, vf

def run(ctx):
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_feet.py")]
    ctx.model("ScheduleMC", must_cover=["Swing", "LiftOff", "Stand", "TouchDown"], timeout=600)
    for kind, q, t, chunk in (("feet", 800, 8000, 200), ("via", 1000, 10000, 1000), ("interp", 1500, 15000, 1500)):
        sc = plan.gen(ctx, kind, q if ctx.quick else t)
        ctx.sample(sc[0])
        ctx.judge(py, sc, "FeetTrace", plan.rec, chunk=chunk, name=kind)
