import plan

def run(ctx):
    exe = plan.build(ctx)
    ctx.model("ScheduleMC", must_cover=["Swing", "LiftOff", "Stand", "TouchDown"], timeout=600)
    sc = plan.gen(ctx, "sched", 2000 if ctx.quick else 20000)
    ctx.sample(sc[0])
    ctx.judge([exe], sc, "ScheduleTrace", plan.rec, chunk=500, name="sched")
    ctx.judge([exe], plan.gen(ctx, "terrain", 1500 if ctx.quick else 15000), "ScheduleTrace", plan.rec, chunk=2000, name="terrain")
