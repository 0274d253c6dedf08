import fb

def run(ctx):
    exe = fb.build(ctx)
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    sc = ctx.generate("FeedbackGen", consts={"Walks": 2000 if ctx.quick else 30000})
    ctx.sample(sc[0])
    ctx.judge([exe], sc, "FeedbackTrace", rec, chunk=400)
