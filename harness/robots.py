"""Synthetic robots (see spec/Kinematics.tla) as pinocchio models."""
import numpy as np
import pinocchio as pin


def quat(o):                     # square of an integer quaternion (w, x, y, z), as (x, y, z, w)
    v, w = np.array(o[1:], float), float(o[0])
    return np.hstack([2 * w * v, w * w - v.dot(v)]) / (w * w + v.dot(v))


def build(rob, frames=None):
    """frames: names of the feet; hips: (name, joint) of further frames"""
    m = pin.Model()
    se3 = lambda off: pin.SE3(np.eye(3), np.array(off) / 100.)
    iner = lambda l: pin.Inertia(l["m"] / 100., np.array(l["c"]) / 100., np.diag(l["i"]) / 1e4)
    b = m.addJoint(0, pin.JointModelFreeFlyer(), pin.SE3.Identity(), "root_joint")
    m.appendBodyToJoint(b, iner(rob["base"]), pin.SE3.Identity())
    m.addFrame(pin.Frame("base_link", b, pin.SE3.Identity(), pin.FrameType.BODY))
    ids = [b]
    for k, j in enumerate(rob["joints"]):
        ids.append(m.addJoint(ids[j["up"]], [pin.JointModelRX, pin.JointModelRY, pin.JointModelRZ][j["ax"] - 1](), se3(j["off"]), "joint%d" % (k + 1)))
        m.appendBodyToJoint(ids[-1], iner(j), pin.SE3.Identity())
    names = frames or ["foot%d" % (i + 1) for i in range(len(rob["feet"]))]
    for n, f in zip(names, rob["feet"]):
        m.addFrame(pin.Frame(n, ids[f["j"]], se3(f["off"]), pin.FrameType.OP_FRAME))
    m.robot_ids = ids
    return m, names


def posture(p):
    return np.hstack([np.array(p["p"]) / 100., quat(p["o"]), [2 * np.arctan2(a, b) for a, b in p["t"]]])
