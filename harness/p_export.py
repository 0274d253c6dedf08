import glob, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums
sys.path.insert(0, vfpy.REPO_PY)
class Base: pass
for m in ("pymomentum", "pybullet", "rospkg", "yaml"): vfpy.stub(m)
vfpy.stub("momentumopt.robots.blmc_robot_wrapper", QuadrupedWrapper=Base, Quadruped12Wrapper=Base)
vfpy.stub("momentumopt.robots.simulator", Simulator=Base)
import matplotlib; matplotlib.use("Agg")
from momentumopt import motion_execution as me
from momentumopt.kinoptpy import create_data_file as cd


def field(sc, f, k, n):
    m = 49 if f in (11, 12, 13) else 1999
    return np.array([float((f * 131 + k * k * 17 + k * c * 29 + c * 61 + sc["salt"]) % m - m // 2) for c in range(n)])


class O: pass


class Dyn:
    def __init__(self, sc, k):
        self.f, self.p, self.com = field(sc, 11, k, 12).reshape(4, 3), field(sc, 12, k, 12).reshape(4, 3), field(sc, 13, k, 3)
        for e in range(4):
            if (e * 7 + (k // 2) * 5 + sc["salt"]) % 3 == 0: self.f[e] = 0.
    def effNum(self): return 4
    def effForce(self, e): return self.f[e].copy()
    def effPosition(self, e): return self.p[e].copy()


class Feedback:
    def __init__(self, sc): self.sc = sc
    def forceGain(self, k): return field(self.sc, 14, k, 108).reshape(12, 9)


def plan(sc):
    n, nj = len(sc["T"]), sc["nj"]
    kin, dyn = O(), O()
    kin.kinematics_states, dyn.dynamics_states = [], []
    for k in range(n):
        s = O(); s.robot_posture, s.robot_velocity, s.robot_acceleration = O(), O(), O()
        q, v, a = field(sc, 1, k, 7 + nj), field(sc, 2, k, 6 + nj), field(sc, 3, k, 6 + nj)
        s.robot_posture.generalized_joint_positions, s.robot_posture.joint_positions = q, q[7:].copy()
        s.robot_velocity.generalized_joint_velocities, s.robot_velocity.joint_velocities = v, v[6:].copy()
        s.robot_acceleration.generalized_joint_accelerations = a
        s.com, s.lmom, s.amom = field(sc, 4, k, 3), field(sc, 5, k, 3), field(sc, 6, k, 3)
        kin.kinematics_states.append(s); dyn.dynamics_states.append(Dyn(sc, k))
    eff = {name: np.array([field(sc, f, k, 12) for k in range(n)]) for name, f in (("trajectory_wrt_base", 7), ("velocity_wrt_base", 8), ("trajectory", 9), ("velocity", 10))}
    return np.array(sc["T"]) / 1000., kin, dyn, eff, Feedback(sc), float(sc["w"])


def query(sc, emit):
    tv, kin, dyn, eff, fb, w = plan(sc)
    out = []
    def add(name, fn, scale=1e4): out.append({"name": name, "v": [nums(fn(t / 8000.), scale) for t in sc["ts"][:2 if name == "gains" else None]]})
    D = lambda spec: me.desired_state(spec, tv, optimized_sequence=kin, dynamics_feedback=fb, optimized_dyn_plan=dyn)
    I = lambda spec: me.interpolate(spec, tv, optimized_motion_eff=eff, optimized_sequence=kin, dynamics_feedback=fb, optimized_dyn_plan=dyn, robot_weight=w)
    for name, spec in (("joints", "POSITION"), ("rates", "VELOCITY"), ("gpos", "GENERALIZED_POSITION"), ("gvel", "GENERALIZED_VELOCITY"), ("gacc", "GENERALIZED_ACCELERATION"),
                       ("forces", "FORCES"), ("com", "COM"), ("lmom", "LMOM"), ("amom", "AMOM"), ("gains", "DYN_FEEDBACK")):
        add(name, D(spec))
    for name, spec in (("pos", "POSITION"), ("vel", "VELOCITY"), ("posabs", "POSITION_ABSOLUTE"), ("velabs", "VELOCITY_ABSOLUTE"), ("com", "COM"), ("lmom", "LMOM"), ("amom", "AMOM"),
                       ("gains", "DYN_FEEDBACK"), ("forces", "FORCES"), ("quat", "QUATERNION"), ("baserate", "BASE_ANGULAR_VELOCITY")):
        add(name, I(spec))
    add("cforce", I("CENTROIDAL_FORCES"), 100); add("cmoment", I("CENTROIDAL_MOMENTS"), 100)
    emit({"event": "query", "out": out})


def files(sc, emit):
    tv, kin, dyn, eff, fb, w = plan(sc)
    d = tempfile.mkdtemp(prefix="vfexp"); here = os.getcwd()
    try:
        os.chdir(d)
        if sc["kind"] == "old": cd.create_file(tv, kin, dyn, fb, w)
        elif sc["kind"] == "qp": cd.create_qp_files(tv, eff, kin, dyn, fb, w)
        else: cd.create_lqr_files(tv, eff, kin, dyn, fb, w)
        out = []
        for p in sorted(glob.glob("quadruped_*.dat")):
            m = np.atleast_2d(np.loadtxt(p))
            name = p[len("quadruped_"):-4]
            ticked = name not in ("positions_eff", "velocities_eff")
            ticks = sorted(set(t for t in sc["ts"] if 0 <= t < len(m)) | {len(m) - 1})
            rows = m[:, 1:] if ticked else m
            out.append({"name": name, "shape": list(m.shape), "skew": int((m[:, 0] != np.arange(len(m))).sum()) if ticked else 0,
                        "ticks": ticks, "rows": [nums(rows[t], 100 if name.startswith("centroidal") else 1e4) for t in ticks]})
        emit({"event": "files", "files": out})
    finally:
        os.chdir(here); shutil.rmtree(d)


vfpy.run(60, lambda sc, emit: query(sc, emit) if sc["kind"] == "query" else files(sc, emit))
