import glob, os, re
import vf

KINDS = {"12": "pinf", "13": "pinf", "14": "dinf"}

def records(i, sc, raw):
    out = []
    for r in raw:
        if r["event"] == "solve":
            p = sc["progs"][r["i"]]
            corpus = "yaml" in p
            r = dict(r, kind=p["kind"], strong=p["strong"], corpus=corpus,
                     A=[] if corpus else p["A"], b=[] if corpus else p["b"])
            if not corpus and p["rs"]["on"]: pass       # A, b unscaled: same equations
        out.append(r)
    return out or [{"event": "nothing"}]

def run(ctx):
    exe = ctx.exe("h_conic", [os.path.join(vf.VERIF, "harness/h_conic.cpp")], ["solver"])
    sc = ctx.generate("ConicGen", consts={"Walks": 3000 if ctx.quick else 40000, "MaxLen": 3 if ctx.quick else 6},
                      timeout=900)
    ctx.sample(sc[0]); ctx.sample(sc[-1])
    cmd = [exe, os.path.join(vf.VERIF, "harness/solver_stgs.yaml")]
    corpus = []
    for f in sorted(glob.glob(vf.REPO + "/solver/tests/yaml_config_files/test_[0-9][0-9].yaml")):
        k = re.search(r"test_(\d+)", f).group(1)
        corpus.append({"progs": [{"yaml": f, "kind": KINDS.get(k, "opt"), "strong": True}]})
    ctx.extra["programs"] = sum(len(s["progs"]) for s in sc) + len(corpus)
    ctx.judge(cmd, sc, "ConicTrace", records, chunk=20000)
    ctx.judge(cmd, corpus, "ConicTrace", records, name="corpus", key=lambda i, s, w: os.path.basename(s["progs"][0]["yaml"]),
              replay_kw={"timeout_each": 120})
