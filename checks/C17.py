import os
import vf

def run(ctx):
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_planner.py")]
    ctx.model("PlannerMC", must_cover=["Prepare", "Dynamics", "Kinematics", "FeedbackLaw", "Return"], consts={} if ctx.quick else {"MaxN": 20, "MaxRuns": 4})
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    sc = ctx.generate("PlannerGen", consts={"Walks": 1500 if ctx.quick else 20000})
    ctx.sample(sc[0])
    ctx.judge(py, sc, "PlannerTrace", rec, chunk=500)
