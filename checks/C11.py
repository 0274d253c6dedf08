import plan

def run(ctx):
    exe = plan.build(ctx)
    ctx.model("ScheduleMC", must_cover=["Swing", "LiftOff", "Stand", "TouchDown"], timeout=600)
    for kind, q, t, chunk in (("interp", 3000, 30000, 2000), ("traj", 2000, 20000, 1000), ("sched", 800, 10000, 200)):
        sc = plan.gen(ctx, kind, q if ctx.quick else t)
        ctx.sample(sc[0])
        ctx.judge([exe], sc, "SwingTrace", plan.rec, chunk=chunk, name=kind)
