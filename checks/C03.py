"""C03: enabling of outputs (spec/Outs.tla)."""


def run(ck):
    tr = ck.graph_traces("OutsGen", "OutsMC.cfg", maxlen=120)
    ck.conform("outs", tr, "OutsTrace", "OutsTrace.cfg", label="every transition of one object of each class", san=ck.thorough)
    tr = ck.sim_traces("OutsGen", "OutsSim.cfg", num=ck.q(400, 8000), depth=80)
    ck.conform("outs", tr, "OutsTrace", "OutsTrace.cfg", label="random histories", san=ck.thorough)
