import os, shutil, subprocess
import vf
KINDS = (("dyn", 150, 4000), ("cnt", 150, 4000), ("kin", 150, 4000), ("iface", 150, 4000), ("setting", 150, 3000))

def pybind_for_numpy2():
    """pybind11 2.11 (the installed one) takes PyArray_CopyInto from the slot it had before numpy 2; a copy of
    its headers with the slot of numpy 2, put first on the include path."""
    d = os.path.join(vf.BUILD, "pybind-np2")
    if not os.path.exists(d):
        tmp = "%s.%d" % (d, os.getpid())
        shutil.copytree("/usr/include/pybind11", os.path.join(tmp, "pybind11"))
        p = os.path.join(tmp, "pybind11", "numpy.h")
        txt = open(p).read()
        open(p, "w").write(txt.replace("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50"))
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

def build(ctx):
    np2 = int(subprocess.check_output([vf.VENVPY, "-c", "import numpy; print(numpy.__version__.split('.')[0])"], text=True)) >= 2
    inc = subprocess.check_output(["/usr/bin/python3-config", "--includes"], text=True).split()
    py = []
    for d, _, fs in os.walk(os.path.join(vf.REPO, "momentumopt/srcpy")): py += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    return ctx.exe("pymomentum", sorted(py) + [os.path.join(vf.VERIF, "harness/h_pyview.cpp")], ["momentumopt", "solver", "solver_lqr"], opt="-O0",
                   flags=["-fvisibility=hidden", '-DCFG_SRC_PATH="%s"' % (vf.REPO + "/momentumopt/config/"), '-DCFG_PATH="%s/solver_lqr/config/"' % vf.REPO] + inc, libs=["-shared"],
                   pre_inc=[pybind_for_numpy2()] if np2 else [])

def run(ctx):
    so = build(ctx)
    cmd = [vf.VENVPY, os.path.join(vf.VERIF, "harness/p_bind.py"), so]
    ctx.model("BindingsMC", consts={} if ctx.quick else {"Depth": 4}, timeout=900)
    rows = ctx.generate("BindingsGen", "BindingsRows.cfg")[0]["rows"]
    rec = lambda i, s, raw: [dict(r, s={k: s[k] for k in ("kind", "free")}) if r["event"] == "begin" else r for r in raw] or [{"event": "nothing"}]
    ctx.judge(cmd, [{"enums": True}], "BindingsTrace", rec, name="enums")
    for kind, q, t in KINDS:
        sc = ctx.generate("BindingsGen", consts={"Walks": q if ctx.quick else t, "Kind": '"%s"' % kind})
        ctx.sample(sc[0])
        for s in sc: s["rows"] = rows
        ctx.judge(cmd, sc, "BindingsTrace", rec, chunk=300, name=kind)
