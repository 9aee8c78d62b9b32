"""C04: variables, derivatives, primitives, sub-variables (spec/Vars.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("VarsGen", "VarsMC3.cfg")
    tr = ck.graph_traces("VarsGen", "VarsMC.cfg", maxlen=60, limit=ck.q(500, 6000))
    ck.conform("vars", tr, "VarsTrace", "VarsTrace.cfg", label="transitions of the model with one variable of a product space, two sub-variables, two handles")
    tr = ck.sim_traces("VarsGen", "VarsSim.cfg", num=ck.q(400, 4000), depth=60)
    ck.conform("vars", tr, "VarsTrace", "VarsTrace.cfg", label="random histories, eight handles")
    ck.conform("vars", tr[:ck.q(120, 1000)], "VarsTrace", "VarsTrace.cfg", label="random histories, with sanitizers", san=True)
