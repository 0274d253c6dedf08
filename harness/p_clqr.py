import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums, mat
sys.path.insert(0, vfpy.REPO_PY)
import matplotlib; matplotlib.use("Agg")
from momentumopt.kinoptpy.lqr_gain_manifold import CentroidalLqr
S = 1e7


def qmul(a, b):                  # (x, y, z, w)
    return np.hstack([a[3] * b[:3] + b[3] * a[:3] + np.cross(a[:3], b[:3]), a[3] * b[3] - a[:3].dot(b[:3])])


def quat(o):                     # square of an integer quaternion (w, x, y, z)
    q = np.array([o[1], o[2], o[3], o[0]], float)
    return qmul(q, q) / q.dot(q)


def axis(ax): return np.array([[1, 0, 0], [0, 0, 1], [0, -1, 0], [1, 2, 2], [2, -2, 1], [2, 3, 6], [-6, 2, 3], [3, 4, 0], [0, -3, 4], [4, 4, 7], [-1, 4, 8]][ax - 1], float)


def turn(r):
    a = axis(r["ax"])
    q = np.hstack([r["p"] * a, r["q"] * np.linalg.norm(a)])
    return qmul(q, q) / q.dot(q), 4. * np.arctan2(r["p"], r["q"]) * a / np.linalg.norm(a)


def state(r): return np.hstack([np.array(r["c"]) / 100., np.array(r["v"]) / 100., quat(r["o"]), np.array(r["om"]) / 4.])
def control(r): return np.hstack([np.array(r["f"]) / 10., np.array(r["m"]) / 1000.])


def make(sc, d):
    P = sc["plan"]
    X, U = np.array([state(r) for r in P]), np.array([control(r) for r in P])
    t = np.arange(len(P))[:, None] / 1000.
    for name, cols in (("com", X[:, :3]), ("com_vel", X[:, 3:6]), ("quaternion", X[:, 6:10]), ("base_ang_velocities", X[:, 10:]),
                       ("centroidal_forces", U[:, :3]), ("centroidal_moments", U[:, 3:]), ("contact_activation", np.array([r["on"] for r in P], float))):
        np.savetxt(d + "/quadruped_%s.dat" % name, np.hstack([t, cols]))
    return CentroidalLqr(d)


def rate(l, x0, x1):
    dt = l.dt
    r = (np.array(x1) - np.array(x0)) / dt
    return {"c": nums(r[:3], S), "v": nums(r[3:6], S), "w": nums(r[10:], S / 64), "q": nums(x1[6:10], S)}


FX = np.ones((12, 12)); FX[6:9, 6:9] = 1 / 8.; FX[9:, 6:9] = 1 / 64.; FX[9:, 9:] = 1 / 8.
FU = np.ones((12, 6)); FU[9:, 3:] = 1 / 256.


def dyn(sc, emit, l):
    n, t = sc["n"], sc["t"]
    x, u = state(sc["x"]), control(sc["x"])
    keep = x.copy(), u.copy()
    out = {"event": "dyn", "size": [l.N, len(l.x0), len(l.u0)], "on": nums(l.active_contacts, 1),
           "xp": [{"c": nums(r[:3], 100), "v": nums(r[3:6], 100), "q": nums(r[6:10], S), "om": nums(r[10:], 4)} for r in l.xp],
           "u0": [{"f": nums(r[:3], 10), "m": nums(r[3:], 1000)} for r in l.u0],
           "start": num(np.abs(l.x0[0] - l.xp[0]).max(), S), "first": rate(l, l.x0[0], l.x0[1]),
           "roll": [num(np.abs(l.x0[k + 1] - l.integrate_step(k, l.x0[k], l.u0[k])).max(), S) for k in range(n)],
           "step": rate(l, x, l.integrate_step(t, x, u))}
    fx, fu = l.dynamics_derivatives(t, x, u)
    out["fx"], out["fu"] = mat((fx - np.eye(12)) / l.dt * FX * S, 1), mat(fu / l.dt * FU * S, 1)
    q, rv = turn(sc["turn"])
    d = sc["dx"]
    dx = np.hstack([np.array(d["c"]) / 100., np.array(d["v"]) / 100., rv, np.array(d["om"]) / 100.])
    x1 = l.increment_x(x, dx)
    out["inc"] = {"c": nums(x1[:3], 100), "v": nums(x1[3:6], 100), "q": nums(x1[6:10], S), "om": nums(x1[10:], 100)}
    y = x1.copy(); y[6:10] = sc["s1"] * qmul(q, x[6:10])
    df = l.diff_x(x, y)
    out["diff"] = {"c": nums(df[:3], 100), "v": nums(df[3:6], 100), "r": nums(df[6:9], S), "om": nums(df[9:], 100)}
    out["kept"] = [int(np.array_equal(keep[0], x)), int(np.array_equal(keep[1], u))]
    J = np.array(l.inertia_com_frame)
    out["J"], out["off"] = nums(np.diag(J), 1e8), num(np.abs(J - np.diag(np.diag(J))).max(), 1e9)
    out["mass"], out["dt"], out["g"] = num(l.mass, 1000), num(l.dt, 1e6), nums(l.weight / l.mass, 100)
    emit(out)


def cost(sc, emit, l):
    t, d = sc["t"], sc["dx"]
    l.Q[t] = np.array(sc["Q"], float)
    if t < sc["n"]: l.R[t] = np.array(sc["R"]) / 100.
    q, rv = turn(sc["turn"])
    x = l.x0[t].copy()
    x[:3] += np.array(d["c"]) / 100.; x[3:6] += np.array(d["v"]) / 100.; x[10:] += np.array(d["om"]) / 100.
    x[6:10] = sc["s1"] * qmul(q, x[6:10])
    u = np.array(d["u"]) / 10.
    c = l.cost(t, x, u)
    cx, cu, cxx, cuu, cxu = l.cost_derivatives(t, x, u)
    emit({"event": "cost", "c": num(c, 1e6), "cx": nums(cx, 1e5), "cu": nums(cu, 1e5), "cxx": mat(cxx, 1e4), "cuu": mat(cuu, 1e4), "cxu": mat(cxu, 1e4)})


def gain(sc, emit, l):
    n = sc["n"]
    l.Q = [np.array(q, float) for q in sc["Q"]]
    l.R = [np.array(r) / 1000. for r in sc["R"]]
    l.compute_gains()
    out = []
    for t in range(n):
        fx, fu = l.dynamics_derivatives(t, l.x0[t], l.u0[t])
        cx, cu, cxx, cuu, cxu = l.cost_derivatives(t, l.x0[t], l.u0[t])
        out.append({"fx": mat(fx, S), "fu": mat(fu, 4 * S), "cx": nums(cx, S), "cu": nums(cu, S), "cxx": mat(cxx, S), "cuu": mat(cuu, S), "cxu": mat(cxu, S),
                    "c": num(l.cost(t, l.x0[t], l.u0[t]), S), "K": mat(l.kfb[t], S), "k": nums(l.kff[t], S), "u": nums(l.u0[t], 1000)})
    f = np.atleast_2d(np.loadtxt(l.dir + "/quadruped_centroidal_gains_manifold.dat"))
    emit({"event": "gain", "t": out, "V": [num(v, S) for v in l.value], "Vx": [nums(v, S) for v in l.value_dx], "Vxx": [mat(v, S / 4) for v in l.value_dxdx],
          "on": nums(l.active_contacts, 1), "file": [list(f.shape), num(np.abs(f.reshape(-1) - np.array(l.kfb).reshape(-1)).max(), 1e9)] if f.size == n * 72 else [list(f.shape), vfpy.NANV]})


def body(sc, emit):
    d = tempfile.mkdtemp(prefix="vfclqr")
    try:
        {"dyn": dyn, "cost": cost, "gain": gain}[sc["kind"]](sc, emit, make(sc, d))
    finally:
        shutil.rmtree(d)


vfpy.run(60, body)
