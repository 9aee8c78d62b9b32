"""C13: task dynamics and linearized task constraints (spec/TaskDyn.tla)."""


def run(ck):
    tr = ck.sim_traces("TaskDynGen", "TaskDynSim.cfg", num=ck.q(1500, 20000), depth=4000)
    ck.conform("taskdyn", tr, "TaskDynTrace", "TaskDynTrace.cfg", label="random histories", san=ck.thorough)
