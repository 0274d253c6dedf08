import lqr

def run(ctx):
    exe = lqr.build(ctx)
    ctx.model("LqrLoopMC", must_cover=["BackwardFails", "Accept", "Reject", "StopGradient", "StopOther"], consts={} if ctx.quick else {"Lo": 4, "Hi": 5, "MaxIt": 7}, timeout=1200)
    lqr.judge(ctx, exe, "LqrTrace.cfg", (("lq", 400, 6000, 100), ("lim", 400, 6000, 100), ("poly", 600, 10000, 150)))
