"""C05: vectors of variables (spec/VarVec.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("VarVecGen", "VarVecMC3.cfg")
    tr = ck.graph_traces("VarVecGen", "VarVecMC.cfg", maxlen=60)
    ck.conform("varvec", tr, "VarVecTrace", "VarVecTrace.cfg", label="transitions of the model with two vectors and four variables")
    tr = ck.sim_traces("VarVecGen", "VarVecSim.cfg", num=ck.q(500, 5000), depth=60)
    ck.conform("varvec", tr, "VarVecTrace", "VarVecTrace.cfg", label="random histories, three vectors, thirteen variables")
    ck.conform("varvec", tr[:ck.q(80, 800)], "VarVecTrace", "VarVecTrace.cfg", label="random histories, with sanitizers", san=True)
