import sys
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums
sys.path.insert(0, vfpy.REPO_PY)
import matplotlib; matplotlib.use("Agg")
import pinocchio as pin
from robots import build, posture, quat
from p_ik_still import still
from momentumopt.kinoptpy.inverse_kinematics import PointContactInverseKinematics
S = 1e7


def sized(x):
    """x/k for a power of two k with |x/k| <= 8"""
    x, k = np.asarray(x, float), 1
    while k < 2 ** 20 and np.all(np.isfinite(x)) and np.max(np.abs(x)) > 8 * k: k *= 2
    return {"x": nums(x / k, S), "k": k, "dim": list(x.shape)}


def refs(c):
    r = c["ref"]
    return (np.array(r["com"]) / 100., np.array(r["lm"]) / 100., np.array(r["am"]) / 100., [np.array(p) / 100. for p in r["ep"]], [np.array(v) / 100. for v in r["ev"]],
            np.array(r["con"], float), np.array(r["q"]) / 100. if r["q"] else None)


def owner(sc):
    """the caller's vectors: new ones for every call, or always the same ones, written in place"""
    mine = {}

    def give(name, v):
        if v is None or not sc["own"]: return v
        v = np.asarray(v, float)
        if name in mine: mine[name][...] = v
        else: mine[name] = v.copy()
        return mine[name]
    return give


def vel(sc, emit):
    model, feet = build(sc["rob"])
    aux = model.createData()
    ik = PointContactInverseKinematics(model, feet)
    old, out, give = [], [], owner(sc)
    for c in sc["calls"]:
        q, dq = give("q", posture(c["pose"])), give("dq", np.array(c["dq"]) / 100.)
        w = c["w"]
        ik.w_lin_mom_tracking, ik.w_ang_mom_tracking, ik.w_endeff_contact, ik.w_endeff_tracking, ik.w_joint_regularization = [w[k] / 100. for k in ("lin", "ang", "con", "swi", "reg")]
        ik.p_endeff_tracking, ik.p_com_tracking, ik.is_init_time = w["pe"] / 10., w["pc"] / 10., w["init"]
        com, lm, am, ep, ev, con, jr = [give(n, v) for n, v in zip(("com", "lm", "am", "ep", "ev", "con", "jr"), refs(c))]
        given = [q.copy(), dq.copy(), com.copy(), lm.copy(), am.copy(), np.array(ep), np.array(ev), con.copy()]
        if len(out) % 2: con = [bool(x) for x in con]
        x = ik.compute(q, dq, com, lm, am, ep, ev, con, jr, bool(c["fly"])) if c["fly"] else ik.compute(q, dq, com, lm, am, ep, ev, con, jr)
        x = np.asarray(x)
        same = all(np.array_equal(a, np.asarray(b, float)) for a, b in zip(given, [q, dq, com, lm, am, np.array(ep), np.array(ev), con]))
        kept = all(np.array_equal(a, b) for a, b in old)
        old.append((x, x.copy()))
        out.append({**sized(x), "same": int(same), "kept": int(kept),
                    "still": [nums(z, S) for z in still(model, aux, q)] if c["fly"] else []})
    emit({"event": "vel", "out": out})


def acc(sc, emit):
    from momentumopt.kinoptpy.second_order_ik import SecondOrderInverseKinematics
    model, feet = build(sc["rob"])
    ik = SecondOrderInverseKinematics(model, feet)
    out, give = [], owner(sc)
    for c in sc["calls"]:
        q, dq = give("q", posture(c["pose"])), give("dq", np.array(c["dq"]) / 100.)
        w = c["w"]
        ik.w_lin_mom_tracking, ik.w_ang_mom_tracking, ik.w_endeff_contact, ik.w_endeff_tracking, ik.w_joint_regularization = [w[k] / 100. for k in ("lin", "ang", "con", "swi", "reg")]
        ik.p_endeff_tracking, ik.d_endeff_tracking, ik.p_com_tracking, ik.p_orient_tracking, ik.d_orient_tracking = [w[k] / 10. for k in ("pe", "de", "pc", "po", "do")]
        ik.p_mom_tracking = np.array(w["pm"]) / 10.
        ik.p_joint_regularization, ik.d_joint_regularization = w["pj"] / 10., w["dj"] / 10.
        com, lm, am, ep, ev, con, jr = [give(n, v) for n, v in zip(("com", "lm", "am", "ep", "ev", "con", "jr"), refs(c))]
        o = quat(c["ro"]); o = pin.Quaternion(o[3], o[0], o[1], o[2])
        x = ik.step(q, dq, com, o, np.hstack([lm, am]), np.array(c["dm"]) / 100., np.array(ep), np.array(ev), np.array(c["ea"]) / 100., con, jr)
        x = np.asarray(x)
        out.append({**sized(x), "ang": nums(q[7:], S)})
    emit({"event": "acc", "out": out})


vfpy.run(60, lambda sc, emit: {"vel": vel, "acc": acc}[sc["kind"]](sc, emit))
