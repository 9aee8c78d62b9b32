"""C08: bookkeeping of control problems and events received by the schemes (spec/Problem.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("ProblemGen", "ProblemMC3.cfg")
    tr = ck.graph_traces("ProblemGen", "ProblemMC.cfg", maxlen=60, limit=ck.q(1200, 12000))
    ck.conform("problem", tr, "ProblemTrace", "ProblemTrace.cfg", label="transitions of the model with one problem, two tasks, two schemes, queues of at most two events")
    tr = ck.sim_traces("ProblemGen", "ProblemSim.cfg", num=ck.q(400, 3000), depth=60)
    ck.conform("problem", tr, "ProblemTrace", "ProblemTrace.cfg", label="random histories, three problems, four tasks, two schemes")
    ck.conform("problem", tr[:ck.q(40, 400)], "ProblemTrace", "ProblemTrace.cfg", label="random histories, with sanitizers", san=True)
