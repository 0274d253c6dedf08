import os, random
import vf

def run(ctx):
    rnd = random.Random(ctx.seed)
    exe = ctx.exe("h_optvar", [os.path.join(vf.VERIF, "harness/h_optvar.cpp")], ["solver"], only="interface/OptVar")
    sc = ctx.generate("VarLayoutGen")
    rnd.shuffle(sc)
    sc = sc[: 1500 if ctx.quick else len(sc)]
    sc += ctx.generate("VarLayoutGen", "VarLayoutGenSim.cfg", consts={"Walks": 250 if ctx.quick else 4000})
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    ctx.judge([exe], sc, "VarLayoutTrace", lambda i, s, raw: raw, chunk=4000)
