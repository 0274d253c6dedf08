import lqr

def run(ctx):
    exe = lqr.build(ctx)
    lqr.judge(ctx, exe, "LqrPolicy.cfg", (("lq", 500, 8000, 100), ("lim", 300, 4000, 100), ("poly", 400, 6000, 100)))
