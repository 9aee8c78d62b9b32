"""C19: linear functions (spec/LinFun.tla)."""


def run(ck):
    tr = ck.sim_traces("LinFunGen", "LinFunSim.cfg", num=ck.q(2000, 25000), depth=4000)
    ck.conform("linfun", tr, "LinFunTrace", "LinFunTrace.cfg", label="random histories", san=ck.thorough)
