"""C14: solving requirements (spec/Reqs.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("ReqsGen", "ReqsMC3.cfg")
    tr = ck.graph_traces("ReqsGen", "ReqsMC.cfg")
    ck.conform("reqs", tr, "ReqsTrace", "ReqsTrace.cfg", label="every transition of two objects and two callbacks", san=ck.thorough)
    tr = ck.list_traces("ReqsGen", "ReqsE.cfg")
    ck.conform("reqs", tr, "ReqsTrace", "ReqsTrace.cfg", label="every order of every choice of requirements", san=ck.thorough)
    tr = ck.sim_traces("ReqsGen", "ReqsSim.cfg", num=ck.q(400, 6000), depth=80)
    ck.conform("reqs", tr, "ReqsTrace", "ReqsTrace.cfg", label="random histories of requirements", san=ck.thorough)
