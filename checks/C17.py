"""C17: compiled assignments (spec/CAssign.tla)."""


def run(ck):
    tr = ck.sim_traces("CAssignGen", "CAssignSim.cfg", num=ck.q(900, 12000), depth=4000)
    ck.conform("cassign", tr, "CAssignTrace", "CAssignTrace.cfg", label="random histories", san=ck.thorough)
