import sys
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums
sys.path.insert(0, vfpy.REPO_PY)
names = ["KinematicsInterface", "KinematicsSequence", "PlannerVectorParam_KinematicDefaultJointPositions", "PlannerIntParam_NumTimesteps", "PlannerDoubleParam_TimeStep",
         "PlannerIntParam_NumDofs", "PlannerDoubleParam_RobotWeight"]
class Base: pass
vfpy.stub("pymomentum", **{n: (Base if n.startswith("Kin") else n) for n in names})
vfpy.stub("pybullet"); vfpy.stub("yaml"); vfpy.stub("rospkg")
vfpy.stub("momentumopt.robots.blmc_robot_wrapper", QuadrupedWrapper=Base, Quadruped12Wrapper=Base)
import matplotlib; matplotlib.use("Agg")
from momentumopt.kinoptpy.momentum_kinematics_optimizer import EndeffectorTrajectoryGenerator, TrajectoryInterpolator
from momentumopt.kinoptpy import min_jerk_traj as mj


class State:
    def __init__(self, act, pos): self.a, self.p = act, pos
    def effActivation(self, f): return self.a[f]
    def eff(self, f): return self.p[f]
    effPosition = eff
    def effNum(self): return 4


class Obj: pass


def feet(sc, emit):
    n, nf, wait = sc["n"] + sc["wait"], len(sc["feet"]), sc["wait"]
    rng = np.random.RandomState(n)
    act, pos = np.zeros((n, 4), bool), rng.rand(n, 4, 3)     # away from contacts the plan may hold anything
    for f, segs in enumerate(sc["feet"]):
        k = 0
        for i, g in enumerate(segs):
            e = n if i == len(segs) - 1 else min(n, k + g["len"] + (wait if i == 0 else 0))
            if g["act"]: act[k:e, f] = True; pos[k:e, f] = np.array(g["pos"]) / 100.
            k = e
    o = Obj(); seq = Obj()
    seq.dynamics_states = [State([bool(a) for a in act[k]], [p.copy() for p in pos[k]]) for k in range(n)]
    o.eff_names = ["eff%d" % f for f in range(nf)]; o.num_time_steps = n; o.dt = sc["dt"] / 1000.; o.dynamic_sequence = seq
    o.com_dyn = np.zeros((n, 3))
    g = EndeffectorTrajectoryGenerator(); g.z_offset = sc["zoff"] / 100.
    p, v, c = g(o)
    p, v, c = np.asarray(p), np.asarray(v), np.asarray(c)
    keep = [k for k in range(n) if not 4 <= k < wait - 4]
    emit({"event": "feet", "shape": [list(x.shape) for x in (p, v, c)], "k": keep, "n": n,
          "feet": [[{"p": nums(p[k][f], 1e6), "v": nums(v[k][f] * o.dt, 1e7), "c": num(c[k][f], 1)} for k in keep] for f in range(nf)],
          "plan": [int(all(np.array_equal(seq.dynamics_states[k].p[f], pos[k, f]) for k in range(n) for f in range(4)))]})


def via(sc, emit):
    t = TrajectoryInterpolator()
    w = sc["wait"]; dt = sc["dt"] / 1000.
    t.num_time_steps = sc["n"] + w
    t.init, t.end = np.array(sc["init"]) / 100., np.array(sc["last"]) / 100.
    rows = [np.array([(s + w) * sc["dt"] / 1000.] + [x / 100. for x in q]) for s, q in zip(sc["steps"], sc["via"])]
    t.generate_trajectory(len(rows), rows, dt)
    keep = [k for k in range(t.num_time_steps) if k >= w - 2]
    out = []
    for k in keep:
        q = np.asarray(t.evaluate_trajecory(k))
        out.append(nums(q, 1e6) if q.size == sc["nj"] else [])
    emit({"event": "via", "k": keep, "q": out})


def poly(sc, emit):
    def P(t, d):
        x, r = t - sc["c"], 0.
        for i in range(len(sc["co"]) - 1, d - 1, -1):
            c = sc["co"][i]
            for j in range(d): c *= i - j
            r = r * x + c
        return r
    cons = [(float(t), P(t, 0), 0) for t in sc["tp"]] + [(float(t), P(t, 1), 1) for t in sc["tv"]] + [(float(t), P(t, 2), 2) for t in sc["ta"]]
    cons = cons[sc["c"] % len(cons):] + cons[:sc["c"] % len(cons)]
    p = mj.Polynomial()
    p.set_constraints([c[0] for c in cons], [c[1] for c in cons], [c[2] for c in cons])
    p.fit()
    d2 = None
    both = lambda x: [num(x, 64), num(x, 64. * 4096)]
    res = []
    for q in sc["q"]:
        res.append([both(p.eval(q / 2.)), both(p.deval(q / 2.))])
    c = mj.constant_poly(sc["co"][0] / 10.)
    emit({"event": "poly", "out": res, "const": [num(c.eval(3), 10), num(c.deval(3), 1)]})


vfpy.run(30, lambda sc, emit: {"feet": feet, "via": via, "interp": poly}[sc["kind"]](sc, emit))
