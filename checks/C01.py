"""C01: update graphs (spec/UGraph.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("UGraphGen", "UGraphMC3.cfg")
        tr = ck.graph_traces("UGraphGen", "UGraphMC.cfg")
        ck.conform("ugraph", tr, "UGraphTrace", "UGraphTrace.cfg", label="every transition of two nodes")
        tr = ck.list_traces("UGraphGen", "UGraphE2.cfg")
        ck.conform("ugraph", tr, "UGraphTrace", "UGraphTrace.cfg", label="every node with two updates and outputs")
    tr = ck.list_traces("UGraphGen", "UGraphE.cfg")
    ck.conform("ugraph", tr, "UGraphTrace", "UGraphTrace.cfg", label="every pair of nodes", san=ck.thorough)
    tr = ck.sim_traces("UGraphGen", "UGraphSim.cfg", num=ck.q(400, 4000), depth=100)
    ck.conform("ugraph", tr, "UGraphTrace", "UGraphTrace.cfg", label="random graphs", san=ck.thorough)
