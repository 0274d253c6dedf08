import dyn

def run(ctx):
    dyn.plans(ctx, "DynamicsLimits.cfg")
