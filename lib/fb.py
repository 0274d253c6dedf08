import os
import vf

def build(ctx):
    return ctx.exe("h_fb", [os.path.join(vf.VERIF, "harness/h_fb.cpp")], ["momentumopt", "solver_lqr", "solver"],
                   only=r"DynamicsState|DynamicsFeedback|PlannerSetting|/solver/|/solver_lqr/|OrientationUtils",
                   flags=['-DVF_DIR="%s"' % os.path.join(vf.VERIF, "harness"), '-DCFG_SRC_PATH="%s"' % (vf.REPO + "/momentumopt/config/"),
                          '-DCFG_PATH="%s/solver_lqr/config/"' % vf.REPO])
