import dyn

def run(ctx):
    dyn.plans(ctx, "DynamicsTrace.cfg")
