"""The planner driver with stand-in optimisers that record what they are asked (see spec/Planner.tla)."""
import os, sys, tempfile
sys.dont_write_bytecode = True
import numpy as np
import vfpy
from vfpy import num, nums
sys.path.insert(0, vfpy.REPO_PY)
import matplotlib; matplotlib.use("Agg")
import re

log, now = [], {}
SCALE = 1e4


class O: pass


def ev(e, **k): log.append(dict(e=e, **k))


class Setting:
    def __init__(self): self.read = None
    def initialize(self, cfg, *a): self.read = cfg; now["setting"] = self; ev("settings", cfg=int(cfg == now["cfg"]))
    def get(self, name):
        if self.read is None: ev("unset")
        if name in now["values"]: return now["values"][name]
        return "<%s>" % name


class LqrSetting:
    def initialize(self, cfg, section="solverlqr"): now["lqrsetting"] = self; ev("lqrsettings", cfg=int(cfg == now["cfg"]), section=section)


class DynState:
    def __init__(self, dt=0., x=0.): self.dt = dt; self.com = np.full(3, x); self.lmom = np.full(3, 2 * x); self.amom = np.full(3, 3 * x)
    def fillInitialRobotState(self, cfg, *a): now["ini"] = self; ev("ini", cfg=int(cfg == now["cfg"]))


class Terrain:
    def loadFromFile(self, cfg): now["terrain"] = self; ev("terrain", cfg=int(cfg == now["cfg"]))


class Contacts:
    def __init__(self): self.seq = O()
    def initialize(self, s): self.s = s; ev("plan_init", set=int(s is now.get("setting")))
    def optimize(self, ini, ter): now["plan"] = self; ev("plan", ini=int(ini is now.get("ini")), ter=int(ter is now.get("terrain")))
    def contactSequence(self): return self.seq


class DynOpt:
    def __init__(self): self.v = 0; self.states = [DynState() for _ in range(len(now["dts"]))]
    def initialize(self, s): now["dyn"] = self; ev("dyn_init", set=int(s is now.get("setting")))
    def optimize(self, ini, plan, kin, update_tracking_objective=False):
        self.v += 1; now["runs"] += 1
        ev("dyn", ini=int(ini is now.get("ini")), plan=int(plan is now.get("plan")), kin=kin.v if kin is now["kin"].kinematics_sequence else -1, track=int(update_tracking_objective))
        self.states = [DynState(d / 1e4 + 1e-3 * (self.v % 7), self.v + k) for k, d in enumerate(now["dts"])]
    def dynamicsSequence(self):         # as the bindings: a copy
        s = O(); s.v, s.dynamics_states = self.v, self.states
        return s


class KinSeq:
    def __init__(self, n): self.v = 0; self.kinematics_states = [DynState() for _ in range(n)]


class Gen:
    pass


class KinOpt:
    def __init__(self): self.inv_kin, self.snd_order_inv_kin = O(), O()
    def initialize(self, s, max_iterations=50, eps=1e-3, endeff_traj_generator=None, RobotWrapper=None):
        now["kin"] = self; self.endeff_traj_generator = O(); self.motion_eff = {"trajectory": None}; self.dt = .1
        self.kinematics_sequence = KinSeq(len(now["dts"]))
        ev("kin_init", set=int(s is now.get("setting")), robot=RobotWrapper.tag)
    def optimize(self, ini, contacts, dyn, plotting=False):
        ev("kin", ini=int(ini is now.get("ini")), plan=int(contacts is now["plan"].seq), dyn=dyn.v if isinstance(getattr(dyn, "v", None), int) else -1)
        self.kinematics_sequence.v += 1


class Feedback:
    def __init__(self): self.ready = 0
    def initialize(self, l, s): self.ready = int(l is now.get("lqrsetting") and s is now.get("setting"))
    def optimize(self, ini, dyn): now["fb"] = self; ev("fb", set=self.ready, ini=int(ini is now.get("ini")), dyn=dyn.v)


class W: pass
class Quad(W): tag = "quad"
class Quad12(W): tag = "quad12"
class Biped(W): tag = "biped"

srcs = [open(os.path.join(vfpy.REPO_PY, "momentumopt", f)).read() for f in ("motion_planner.py", "kinoptpy/momentum_kinematics_optimizer.py")]
params = {n: n for n in re.findall(r"Planner[A-Za-z]*Param_\w+", "\n".join(srcs))}
params.update(PlannerIntParam_NumTimesteps="PlannerIntParam_NumTimesteps")
vfpy.stub("pysolver"); vfpy.stub("pysolverlqr", SolverLqrSetting=LqrSetting)
vfpy.stub("pymomentum", PlannerSetting=Setting, DynamicsState=DynState, TerrainDescription=Terrain, ContactPlanFromFile=Contacts, DynamicsOptimizer=DynOpt,
          DynamicsFeedback=Feedback, KinematicsSequence=KinSeq, KinematicsInterface=W, **params)
for m in ("pybullet", "rospkg", "yaml"): vfpy.stub(m)
vfpy.stub("momentumopt.robots.blmc_robot_wrapper", QuadrupedWrapper=Quad, Quadruped12Wrapper=Quad12, BipedWrapper=Biped)
vfpy.stub("momentumopt.robots.simulator", Simulator=W)
from momentumopt import motion_planner as mp
from momentumopt import kino_dyn_planner as kd
kd.MomentumKinematicsOptimizer = KinOpt


def export(tag):
    def f(tv, *a):
        r = {"time": nums(tv, SCALE), "kin": -1, "dyn": -1, "eff": -1, "fb": -1, "w": 0}
        for x in a:
            if x is now["kin"].kinematics_sequence: r["kin"] = x.v
            elif x is now["kin"].motion_eff: r["eff"] = 1
            elif hasattr(x, "dynamics_states"): r["dyn"] = x.v
            elif x is None: r["fb"] = 0
            elif isinstance(x, Feedback): r["fb"] = int(x is now.get("fb"))
            elif x == "<PlannerDoubleParam_RobotWeight>": r["w"] = 1
        ev(tag, **r)
    return f


for n, t in (("create_file", "file"), ("create_lqr_files", "lqrfiles"), ("create_qp_files", "qpfiles")): setattr(mp, n, export(t))


def planner(sc, emit):
    log.clear(); now.clear()
    d = tempfile.mkdtemp(prefix="vfpl")
    cfg = os.path.join(d, "cfg.yaml"); open(cfg, "w").close()
    try:
        now.update(cfg=cfg, dts=sc["dts"], runs=0, values={"PlannerIntParam_KinDynIterations": sc["n"], "PlannerStringParam_ConfigFile": cfg, "PlannerBoolParam_UseSecondOrderInverseKinematics": bool(sc["second"])})
        lqr = bool(sc["lqr"])
        if sc["via"] == "args":
            argv = ["-i" if sc["n"] % 2 else "--ifile", cfg] + {"quad": [], "quad12": ["--solo12"], "biped": ["--bolt"]}[sc["robot"]]
            c, robot, l = kd.parse_arguments(argv)
            ev("args", cfg=int(c == cfg), robot=robot.tag, lqr=int(l))
        else:
            robot = {"quad": Quad, "quad12": Quad12, "biped": Biped}[sc["robot"]]
        if sc["via"] == "direct":
            p = mp.MotionPlanner(cfg, KinOpt, robot, lqr)
            if not sc["noset"]: p.init_from_settings()
        elif sc["via"] == "args" or sc["via"] == "steps":
            p = kd.build_optimization(cfg, robot, lqr)
        p_ = None
        for i, op in enumerate(sc["ops"]):
            if op == "run":
                if sc["via"] == "once" and i == 0: p, *r = kd.build_and_optimize_motion(cfg, robot, lqr, False)
                elif sc["via"] == "direct": r = p.optimize_motion(False)
                else: r = kd.optimize_motion(p, False)
                k, e, dy, f, s, tv = r
                ev("done", kin=k.v if k is now["kin"].kinematics_sequence else -1, eff=int(e is now["kin"].motion_eff), dyn=dy.v,
                   fb=0 if f is None else int(f is now.get("fb")) * 2 - 1, set=int(s is now["setting"]), time=nums(tv, SCALE))
            elif op == "save": p.save_files()
            elif op == "qp": p.save_qp_files()
            elif op == "time": ev("time", time=nums(p.time_vector(), SCALE))
        k = now["kin"]
        att = lambda o, n: {"n": n, "v": str(getattr(o, n))}
        emit({"event": "planner", "log": log[:], "second": int(getattr(k, "use_second_order_inv_kin", 2)) if not sc["noset"] else 2,
              "inv": [att(k.inv_kin, n) for n in sorted(vars(k.inv_kin))], "snd": [att(k.snd_order_inv_kin, n) for n in sorted(vars(k.snd_order_inv_kin))],
              "gen": [att(k.endeff_traj_generator, n) for n in sorted(vars(k.endeff_traj_generator))],
              "opt": [att(k, n) for n in sorted(vars(k)) if isinstance(getattr(k, n), str)]})
    finally:
        os.remove(cfg); os.rmdir(d)


vfpy.run(30, planner)
