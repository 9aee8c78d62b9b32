"""C02: dependency graphs (spec/DepGraph.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("DepGraphGen", "DepGraphMC4.cfg")
    tr = ck.graph_traces("DepGraphGen", "DepGraphMC.cfg")
    ck.conform("depgraph", tr, "DepGraphTrace", "DepGraphTrace.cfg", label="every transition of every graph of at most 3 nodes")
    tr = ck.sim_traces("DepGraphGen", "DepGraphSim.cfg", num=ck.q(300, 5000), depth=28)
    ck.conform("depgraph", tr, "DepGraphTrace", "DepGraphTrace.cfg", label="random graphs of at most 8 nodes", san=ck.thorough)
