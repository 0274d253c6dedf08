"""MomentumKinematicsOptimizer on given dynamic plans (see spec/KinPlanGen.tla)."""
import sys
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums
sys.path.insert(0, vfpy.REPO_PY)
import matplotlib; matplotlib.use("Agg")
import pinocchio as pin
from robots import build, posture
S = 1e7


class O: pass


class KinState:
    def __init__(self): self.robot_posture, self.robot_velocity = O(), O()


class KinSeq:
    def __init__(self): self.kinematics_states = []
    def resize(self, n, dofs): self.kinematics_states = [KinState() for _ in range(n)]


names = ["PlannerVectorParam_KinematicDefaultJointPositions", "PlannerIntParam_NumTimesteps", "PlannerDoubleParam_TimeStep", "PlannerIntParam_NumDofs", "PlannerDoubleParam_RobotWeight"]
vfpy.stub("pymomentum", KinematicsInterface=O, KinematicsSequence=KinSeq, **{n: n for n in names})
vfpy.stub("pybullet"); vfpy.stub("yaml"); vfpy.stub("rospkg")
vfpy.stub("momentumopt.robots.blmc_robot_wrapper", QuadrupedWrapper=O, Quadruped12Wrapper=O)
from momentumopt.kinoptpy import momentum_kinematics_optimizer as mk
from momentumopt.kinoptpy import second_order_ik as so
from p_ik_still import still


class DynState:
    def __init__(self, com, lm, am, act=(), pos=()): self.com, self.lmom, self.amom, self.act, self.pos = np.array(com, float), np.array(lm, float), np.array(am, float), act, pos
    def effActivation(self, f): return bool(self.act[f])
    def eff(self, f): return self.pos[f]
    effPosition = eff


def make(sc, gen, joints):
    legs = ["L%d" % i for i in range(len(sc["rob"]["feet"]))]
    model, _ = build(sc["rob"], [l + "_END" for l in legs])
    for l, j in zip(legs, sc["hip"]):
        model.addFrame(pin.Frame(l + "_HFE", model.robot_ids[j], pin.SE3.Identity(), pin.FrameType.JOINT))

    class Robot:
        def __init__(self):
            self.model = model; self.data = model.createData(); self.robot = pin.RobotWrapper(model)
            self.effs, self.joints_list, self.num_ctrl_joints = legs, ["HFE", "END"], model.nv - 6
    dt = sc["dt"] / 1e4
    vals = dict(zip(names, [np.array(joints, float), sc["nt"], dt, model.nv - 6, float(sc["weight"])]))

    class Setting:
        def get(self, n): return vals[n]
    k = mk.MomentumKinematicsOptimizer()
    k.initialize(Setting(), endeff_traj_generator=gen, RobotWrapper=Robot)
    for ik in (k.inv_kin,) + ((k.snd_order_inv_kin,) if sc["kind"] == "snd" else ()):
        w = sc["w"]
        ik.w_lin_mom_tracking, ik.w_ang_mom_tracking, ik.w_endeff_contact, ik.w_endeff_tracking, ik.w_joint_regularization = [w[n] / 100. for n in ("lin", "ang", "con", "swi", "reg")]
    k.inv_kin.p_endeff_tracking, k.inv_kin.p_com_tracking = sc["w"]["pe"] / 10., sc["w"]["pc"] / 10.
    return k, model, dt


def states(k, model, flights):
    aux = model.createData()
    out = []
    for i, s in enumerate(k.kinematics_sequence.kinematics_states):
        p, v = s.robot_posture, s.robot_velocity
        q = np.hstack([p.base_position, p.base_orientation, p.joint_positions])
        dq = np.hstack([v.base_linear_velocity, v.base_angular_velocity, v.joint_velocities])
        m = k.motion_eff
        out.append({"q": nums(q, S), "dq": nums(dq, S), "com": nums(s.com, S), "h": nums(np.hstack([s.lmom, s.amom]), S),
                    "tr": nums(m["trajectory"][i], S), "ve": nums(m["velocity"][i], S), "trb": nums(m["trajectory_wrt_base"][i], S), "veb": nums(m["velocity_wrt_base"][i], S),
                    "kept": int(np.array_equal(k.q_kin[i], q) and np.array_equal(k.dq_kin[i], dq) and np.array_equal(k.com_kin[i], s.com) and np.array_equal(k.lmom_kin[i], s.lmom) and np.array_equal(k.amom_kin[i], s.amom)),
                    "jd": nums(k.joint_des[:, i], S), "bd": nums(k.base_des[:, i], S),
                    "still": [nums(z, S) for z in still(model, aux, q)] if i in flights else []})
    return out


def plan(sc, emit):
    cur = {}
    gen = lambda o: (np.array([s["ep"] for s in cur["r"]["st"]]) / 100., np.array([s["ev"] for s in cur["r"]["st"]]) / 100., np.array([s["act"] for s in cur["r"]["st"]], float))
    q0 = posture(sc["pose"])
    k, model, dt = make(sc, gen, q0[7:])
    k.q_init, k.dq_init = q0.copy(), np.zeros(model.nv)
    ini = DynState(np.zeros(3), np.array(sc["ini"]["lm"]) / 100., np.array(sc["ini"]["am"]) / 100.)
    out = []
    for r in sc["rounds"]:
        cur["r"] = r
        rows = lambda v: [np.array([x["at"] * dt] + [y / 100. for y in x["v"]]) for x in v]
        k.n_via_joint, k.via_joint, k.n_via_base, k.via_base = len(r["jv"]), rows(r["jv"]), len(r["bv"]), rows(r["bv"])
        k.reg_orientation, k.reg_joint_position = r["ro"] / 100., r["rj"] / 10.
        dyn = O(); dyn.dynamics_states = [DynState(np.array(s["com"]) / 100., np.array(s["lm"]) / 100., np.array(s["am"]) / 100., s["act"], np.array(s["ep"]) / 100.) for s in r["st"]]
        k.optimize(ini, O(), dyn)
        same = all(np.array_equal(a[i], getattr(s, n)) for n, a in (("com", k.com_dyn), ("lmom", k.lmom_dyn), ("amom", k.amom_dyn)) for i, s in enumerate(dyn.dynamics_states))
        back = all(np.array_equal(s.com, np.array(t["com"]) / 100.) and np.array_equal(s.lmom, np.array(t["lm"]) / 100.) and np.array_equal(s.amom, np.array(t["am"]) / 100.) for s, t in zip(dyn.dynamics_states, r["st"]))
        out.append({"st": states(k, model, [i for i, s in enumerate(r["st"]) if not any(s["act"])]), "same": int(same and back),
                    "ini": int(np.array_equal(ini.lmom, np.array(sc["ini"]["lm"]) / 100.) and np.array_equal(ini.amom, np.array(sc["ini"]["am"]) / 100.))})
    emit({"event": "plan", "q0": nums(q0, S), "out": out})


def snd(sc, emit):
    n, nt = len(sc["rob"]["feet"]), sc["nt"]
    tau = np.arange(nt) / (nt - 1.)
    col = lambda cs: np.array([[(c[0] + c[1] * t + c[2] * t ** 2 + c[3] * t ** 3) / 100. for c in cs] for t in tau])
    eff = lambda cs: np.transpose(np.array([col(c) for c in cs]), (1, 0, 2))
    con = np.array(sc["act"], float)
    gen = lambda o: (eff(sc["ep"]), eff(sc["ev"]), con.copy())
    q0 = posture(sc["pose"])
    k, model, dt = make(sc, gen, q0[7:])
    k.q_init, k.dq_init = q0.copy(), np.zeros(model.nv)
    calls, ik = [], k.snd_order_inv_kin
    inner = ik.step

    def step(q, dq, com, ori, mom, dmom, ep, ev, ea, c, jr):
        x = np.asarray(inner(q, dq, com, ori, mom, dmom, ep, ev, ea, c, jr))
        o = ori.coeffs()
        calls.append({"q": nums(q, S), "dq": nums(dq, S), "x": nums(x * 1e-3, S), "com": nums(com, S), "ori": nums([o[3], o[0], o[1], o[2]], S), "mom": nums(mom, S), "dm": nums(dmom, S),
                      "ep": [nums(v, S) for v in ep], "ev": [nums(v, S) for v in ev], "ea": [nums(v, S) for v in ea], "con": [int(bool(v)) for v in c], "jr": nums(jr, S)})
        return x
    ik.step = step
    com, lm, am, jp, rpy = [col(sc[n]) for n in ("com", "lm", "am", "jp", "rpy")]
    if sc["direct"]:
        r = ik.solve(dt, q0.copy(), np.zeros(model.nv), com, lm, am, eff(sc["ep"]), eff(sc["ev"]), con, jp, rpy)
        st = [{"q": nums(r[0][i], S), "dq": nums(r[1][i], S), "com": nums(r[2][i], S), "h": nums(np.hstack([r[3][i], r[4][i]]), S), "tr": nums(r[5][i], S), "ve": nums(r[6][i], S)} for i in range(nt)]
    else:
        k.use_second_order_inv_kin = True
        rows = lambda v: [np.array([x["at"] * dt] + [y / 100. for y in x["v"]]) for x in v]
        k.n_via_joint, k.via_joint, k.n_via_base, k.via_base = len(sc["jv"]), rows(sc["jv"]), len(sc["bv"]), rows(sc["bv"])
        dyn = O(); dyn.dynamics_states = [DynState(com[i], lm[i], am[i], sc["act"][i], eff(sc["ep"])[i]) for i in range(nt)]
        k.optimize(DynState(com[0], lm[0], am[0]), O(), dyn)
        st = states(k, model, [])
    emit({"event": "snd", "q0": nums(q0, S), "st": st, "calls": calls})


def init(sc, emit):
    q0 = posture(sc["pose"])
    k, model, dt = make(sc, None, q0[7:] + np.array(sc["bend"]) / 100.)
    ini = DynState(np.array(sc["com"]) / 1e7, np.zeros(3), np.zeros(3), [1] * len(sc["feet"]), [np.array(f) / 1e7 for f in sc["feet"]])
    last, inner = [0, -1], k.inv_kin.compute

    def compute(*a):
        r = inner(*a); last[0] += 1; last[1] = float(np.linalg.norm(r)); return r
    k.inv_kin.compute = compute
    k.optimize_initial_position(ini)
    emit({"event": "init", "q": nums(k.q_init, S), "dq": nums(k.dq_init, S), "n": last[0] or -1, "last": num(last[1], S)})


vfpy.run(100, lambda sc, emit: {"plan": plan, "snd": snd, "init": init}[sc["kind"]](sc, emit))
