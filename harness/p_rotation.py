import sys, os
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums, mat
sys.path.insert(0, vfpy.REPO_PY)
class KinematicsInterface:
    def __init__(self): pass
vfpy.stub("pymomentum", KinematicsInterface=KinematicsInterface)
import matplotlib; matplotlib.use("Agg")
from momentumopt.kinoptpy.lqr_gain_manifold import CentroidalLqr
vfpy.stub("yaml")
from momentumopt.helpers import quat2mat
from momentumopt.PinocchioKinematicsInterface import PinocchioKinematicsInterface as PKI

L = CentroidalLqr.__new__(CentroidalLqr)
L.eps = 1.e-6
S = 1e7


def rotm(q):                     # (x, y, z, w), independent of the code under test
    x, y, z, w = [float(t) for t in q]
    n = w*w + x*x + y*y + z*z
    return mat(np.array([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])/n, S)


def orient(q): return {"m": rotm(q), "n": num(np.linalg.norm(q), S)}


def body(sc, emit):
    def q(a, s=1):
        a = np.array([a[1], a[2], a[3], a[0]], float)
        return s * a / np.linalg.norm(a)
    q1, q2, d = q(sc["q1"], sc["s1"]), q(sc["q2"], sc["s2"]), q(sc["d"])
    i1, i2 = [np.array([a[1], a[2], a[3], a[0]], float) for a in (sc["q1"], sc["q2"])]
    rv, om = np.array(sc["rv"]) / S, np.array(sc["om"]) / S
    u, v = np.array(sc["u"], float), np.array(sc["v"], float)
    w = lambda a: [a[3], a[0], a[1], a[2]]
    r = {"event": "py", "skew": nums(L.skew(u).dot(v), 1), "r1": mat(L.quaternion_to_rotation(q1), S),
         "prod": nums(w(L.quaternion_product(i1, i2)), 1),
         "exp": orient(L.exp_quaternion(.5 * om)), "log": nums(L.log_quaternion(d), S),
         "explog": [orient(L.exp_quaternion(.5 * L.log_quaternion(s * d))) for s in (1, -1)],
         "int": orient(L.integrate_quaternion(q1, om)), "rest": orient(L.integrate_quaternion(q1, np.zeros(3))),
         "diff": nums(L.quaternion_difference(q1, q2), S), "same": nums(L.quaternion_difference(q1, q1), S),
         "opp": nums(L.quaternion_difference(q1, -q1), S),
         "rt": orient(L.integrate_quaternion(q1, L.quaternion_difference(q1, q2)))}
    r["q2m"] = mat(quat2mat(w(q2)), S)
    r["plog"] = nums(PKI.logarithmicMap(PKI.__new__(PKI), w(q(sc["d"], sc["s1"]))), S)
    emit(r)

vfpy.run(20, body)
