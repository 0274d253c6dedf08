import os
import vf

def run(ctx):
    exe = ctx.exe("h_settings", [os.path.join(vf.VERIF, "harness/h_settings.cpp")], ["solver", "solver_lqr", "momentumopt"], only="Setting.cpp", flags=["-O0"])
    sc = ctx.generate("SettingsGen", consts={"Walks": 60 if ctx.quick else 1500})
    ctx.sample(sc[0]["cls"])
    ctx.judge([exe], sc, "SettingsTrace", lambda i, s, raw: raw, chunk=1500 if ctx.quick else 1500)
