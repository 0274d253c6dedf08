import os
import vf

def run(ctx):
    exe = ctx.exe("h_rotation", [os.path.join(vf.VERIF, "harness/h_rotation.cpp")], ["momentumopt"], only="OrientationUtils.cpp")
    py = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_rotation.py")]
    ctx.model("FixPointMC")
    ctx.model("RotationMC", consts={} if ctx.quick else {"K": 2}, timeout=800)
    sc = ctx.generate("RotationGen", consts={"Walks": 2500 if ctx.quick else 30000})
    ctx.sample(sc[0])
    rec = lambda i, s, raw: [dict(r, s=s) for r in raw] or [{"event": "nothing"}]
    ctx.judge([exe], sc, "RotationTrace", rec, chunk=4000, name="cpp")
    ctx.judge(py, sc, "RotationTrace", rec, chunk=4000, name="py")
