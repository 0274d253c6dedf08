"""The Python modules under histories of spec/BindingsGen.tla.  argv: shared object, scenarios."""
import importlib.machinery, importlib.util, sys
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums
S = 1e6
SO = sys.argv[1]
m = w = None
failed = None


def load(name):
    spec = importlib.util.spec_from_file_location(name, SO, loader=importlib.machinery.ExtensionFileLoader(name, SO))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


try:
    m = load("pymomentum")
    w = load("vfview")

    class Iface(m.KinematicsInterface):
        def __init__(self): m.KinematicsInterface.__init__(self); self.seen = {}; self.answer = None
        def initialize(self, setting): self.seen = {"method": "initialize", "int": setting.get(m.PlannerIntParam.PlannerIntParam_NumTimesteps)}
        def displayPosture(self, state, dt): self.seen = {"method": "display", "x": w.dump(state), "dt": num(dt, S)}
        def logarithmicMap(self, quat): self.seen = {"method": "log", "quat": nums(quat, S)}; return self.answer
        def integratePosture(self, state, dt): self.seen = {"method": "integrate", "x": w.dump(state), "dt": num(dt, S)}; return self.answer
        def updateJacobiansAndState(self, state, dt): self.seen = {"method": "update", "x": w.dump(state), "dt": num(dt, S)}; return self.answer
        def differentiatePostures(self, a, b, dt): self.seen = {"method": "diff", "x": w.dump(a), "y": w.dump(b), "dt": num(dt, S)}; return self.answer
except ImportError as e:
    failed = "import: " + str(e)[:120]

STATE = {"posture": "q n", "velocity": "n"}


def new(kind, n):
    return {"dyn": lambda: m.DynamicsState(), "cnt": lambda: m.ContactState(), "kin": lambda: m.KinematicsState(n), "posture": lambda: m.RobotPosture(n),
            "velocity": lambda: m.RobotVelocity(n), "acceleration": lambda: m.RobotAcceleration(n), "iface": lambda: Iface(), "setting": lambda: m.PlannerSetting()}[kind]()


# ---- names ----
ROWS = {}      # kind -> readable names, filled from the first scenario of the kind


def param(name):
    t, p = name.split("_", 1)
    cls = "Planner%sParam" % t
    return getattr(getattr(m, cls), cls + "_" + p)


def walk(o, name):
    """object and last attribute (with an index or an argument)"""
    parts = name.split(".")
    for p in parts[:-1]: o = getattr(o, p)
    return o, parts[-1]


def flat(v):
    if isinstance(v, bool) or isinstance(v, (np.bool_,)): return [int(v)]
    if isinstance(v, float): return [num(v, S)]
    if isinstance(v, str): return [ord(c) for c in v]
    if isinstance(v, np.ndarray):
        return nums(v, S)
    return [int(v)]


def mat(a):
    a = np.asarray(a)
    return [a.shape[0], a.shape[1]] + nums(a, S)


def get(kind, o, name):
    if kind == "setting":
        v = o.get(param(name))
        if name.startswith("CVector"):
            return [x for u in v for x in [len(u)] + nums(u, S)]
        return flat(v)
    o, p = walk(o, name)
    if "(" in p:
        f, e = p.split("(")
        return flat(getattr(o, f)(int(e)))
    idx = None
    if "[" in p: p, idx = p.split("[")
    v = getattr(o, p)
    if p == "endeffector_positions": return nums(v[int(idx)], S) if idx is not None else [x for u in v for x in nums(u, S)]
    if p == "endeffector_jacobians": return mat(v[int(idx)]) if idx is not None else [x for u in v for x in mat(u)]
    if kind == "iface": return nums(v, S) if p == "constraints_vector" else mat(v)
    return flat(v)


ENUMC = {}


def rot(q):
    x, y, z, w_ = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w_ * z), 2 * (x * z + w_ * y)], [2 * (x * y + w_ * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w_ * x)],
                     [2 * (x * z - w_ * y), 2 * (y * z + w_ * x), 1 - 2 * (x * x + y * y)]])


def vec(v): return np.array(v) / S
def matrix(v): return np.array(v[2:]).reshape(v[0], v[1]) / S


def put(kind, o, name, vals):
    v = vals[0]
    if kind == "setting":
        t = name.split("_")[0]
        x = {"Int": lambda: v[0], "Bool": lambda: bool(v[0]), "Double": lambda: v[0] / S, "String": lambda: "".join(map(chr, v)), "Vector": lambda: vec(v)}.get(t)
        if t == "CVector":
            r, i = [], 0
            while i < len(v): r.append(vec(v[i + 1:i + 1 + v[i]])); i += 1 + v[i]
            return o.set(param(name), r)
        return o.set(param(name), x())
    o, p = walk(o, name)
    if "(" in p:
        f, e = p.split("(")
        return getattr(o, f)(m.EffId.__members__[["right_foot", "left_foot", "right_hand", "left_hand"][int(e)]] if f == "setEffForce" else int(e), bool(v[0]) if "Activation" in f else vec(v))
    if "[" in p:
        p, idx = p.split("[")
        getattr(o, p)[int(idx)] = matrix(v) if kind == "iface" else vec(v)
        return
    if p == "endeffector_positions":
        a = m.ArrayVector3d()
        for x in vals: a.append(vec(x))
        return setattr(o, p, a)
    if p == "endeffector_jacobians":
        a = m.JacobianVector()
        for x in vals: a.append(matrix(x))
        return setattr(o, p, a)
    if kind == "iface": return setattr(o, p, vec(v) if p == "constraints_vector" else matrix(v))
    if p == "placement":
        a = np.eye(4); a[:3, 3] = vec(vals[0]); a[:3, :3] = rot(vec(vals[1]))
        return setattr(o, p, a)
    if p in ("dt", "start_time", "end_time"): return setattr(o, p, v[0] / S)
    if p == "contactType": return setattr(o, p, [m.ContactType.FreeContact, m.ContactType.FlatContact, m.ContactType.FullContact][v[0]])
    if p == "active": return setattr(o, p, bool(v[0]))
    setattr(o, p, np.concatenate([vec(x) for x in vals]))


def fill(o, cells):
    for c, v in cells.items():
        if c.startswith("Vector_") and not v: continue
        if not w.put(o, c, v): raise RuntimeError("no cell " + c)


def show(kind, o, rows):
    return {"c": w.dump(o), "p": {r: get(kind, o, r) for r in rows[kind]}}


def body(s, emit):
    if failed: return emit({"event": failed})
    if s.get("enums"):
        p = {}
        for cls in ("PlannerIntParam", "PlannerBoolParam", "PlannerDoubleParam", "PlannerStringParam", "PlannerVectorParam", "PlannerCVectorParam", "PlannerIntVectorParam", "ContactType", "Heuristic", "EffId"):
            for k, v in getattr(m, cls).__members__.items(): p[cls + "." + k] = int(v)
        c = w.enums()
        return emit({"event": "enums", "c": c, "p": {k: p[k] for k in p if k in c}, "effs": [getattr(m.EffId, e).value() for e in ("right_foot", "left_foot", "right_hand", "left_hand")]})
    kind, n, rows = s["kind"], s["n"], s["rows"]
    kinds = {"p": "posture", "v": "velocity", "w": "acceleration", "k": "iface"}
    free = {o: new(kinds.get(o, kind), n) for o in s["free"]}
    for o, c in s["free"].items(): fill(free[o], c)
    emit({"event": "begin"})
    hasseq = kind in ("dyn", "cnt", "kin") and "k" not in free
    plan = m.ContactSequence() if kind == "cnt" else None
    eff = {"s": 0, "t": 1}
    own = {"s": m.DynamicsSequence(), "t": m.DynamicsSequence()} if kind == "dyn" else {"s": m.KinematicsSequence(), "t": m.KinematicsSequence()}
    attr = "dynamics_states" if kind == "dyn" else "kinematics_states"
    eid = {"s": m.EffId.right_foot, "t": m.EffId.left_foot}
    held = [None]

    def states(q): return plan.contact_states(eid[q].value()) if kind == "cnt" else getattr(own[q], attr)
    def place(at, i): return held[0] if at == "h" else states(at)[i - 1] if at in ("s", "t") else free[at]
    def csize(q): return w.cnt_size(plan, eff[q]) if kind == "cnt" else (w.dyn_size if kind == "dyn" else w.kin_size)(own[q])
    def cdump(q, i): return w.cnt_dump(plan, eff[q], i) if kind == "cnt" else (w.dyn_dump if kind == "dyn" else w.kin_dump)(own[q], i)
    def cput(q, i, c, v): return w.cnt_put(plan, eff[q], i, c, v) if kind == "cnt" else (w.dyn_put if kind == "dyn" else w.kin_put)(own[q], i, c, v)
    def element(q, i): return {"c": cdump(q, i), "p": {r: get(kind, states(q)[i], r) for r in rows[kind]}}
    def whole(q): return {"csize": csize(q), "psize": len(states(q)) if kind == "cnt" else own[q].size(), "e": [element(q, i) for i in range(csize(q))]}
    at_h = [0]
    for o in s["ops"]:
        op, at, i = o["op"], o["at"], o["i"]
        k = kind if at in ("s", "t", "h", "a", "b") else kinds[at]
        if op == "call":
            ifc, x, y = free["k"], free[o["x"]], free[o["y"]]
            f = o["n"]
            ifc.answer = vec(o["v"][1]) if f == "log" else free[o["ret"]]
            if f == "initialize":
                st = m.PlannerSetting(); w.put(st, "Int_NumTimesteps", [4711]); w.call_initialize(ifc, st); ret = 0
            elif f == "display": w.call_display(ifc, x, o["dt"]); ret = 0
            elif f == "log": ret = w.call_log(ifc, o["v"][0])
            elif f == "diff": ret = w.call_diff(ifc, x, y, o["dt"])
            else: ret = (w.call_integrate if f == "integrate" else w.call_update)(ifc, x, o["dt"])
            emit({"event": "op", "o": o, "r": dict(ifc.seen, ret=ret)})
            continue
        if op == "py": put(k, place(at, i), o["n"], o["v"])
        elif op == "c":
            if at in ("s", "t"): cput(at, i - 1, o["n"], o["v"])
            elif at == "h": cput("s", at_h[0] - 1, o["n"], o["v"])
            else: w.put(free[at], o["n"], o["v"])
        elif op == "assign": states(at)[i - 1] = free[o["n"]]
        elif op == "append": states(at).append(free[o["n"]])
        elif op == "drop": states(at).pop()
        elif op == "copyseq": setattr(own[at], attr, getattr(own["t" if at == "s" else "s"], attr))
        elif op == "clean": own[at].clean()
        elif op == "resize":
            own[at].resize(i) if kind == "dyn" else own[at].resize(i, n)
            for j, c in enumerate(o["m"][:csize(at)]):
                for x, v in c.items(): cput(at, j, x, v)
        elif op == "hold": held[0] = states("s")[i - 1]; at_h[0] = i
        elif op == "part": setattr(place(at, i), {"p": "robot_posture", "v": "robot_velocity", "w": "robot_acceleration"}[o["n"]], free[o["n"]])
        if op in ("py", "c", "assign", "hold", "part"):
            r = element(at, i - 1) if at in ("s", "t") else show(k, place(at, i), rows)
        else: r = whole(at)
        emit({"event": "op", "o": o, "r": r})
    fin = {"event": "end", "free": {o: show(kinds.get(o, kind), free[o], rows) for o in free}, "seqs": hasseq}
    if hasseq: fin["r"] = {q: whole(q) for q in ("s", "t")}
    emit(fin)


vfpy.run(20, body)
