"""C06: counted ranges and variables (spec/Counting.tla)."""


def run(ck):
    if ck.thorough:
        ck.model("CountingGen", "CountingMC4.cfg")
        tr = ck.graph_traces("CountingGen", "CountingMC.cfg", maxlen=60, limit=6000)
        ck.conform("counting", tr, "CountingTrace", "CountingTrace.cfg", label="transitions of the model with at most three additions on a variable of four parts")
    tr = ck.graph_traces("CountingGen", "CountingMC3.cfg", maxlen=60)
    ck.conform("counting", tr, "CountingTrace", "CountingTrace.cfg", label="transitions of the model with at most three additions on a variable of three parts")
    tr = ck.sim_traces("CountingGen", "CountingSim.cfg", num=ck.q(500, 5000), depth=70)
    ck.conform("counting", tr, "CountingTrace", "CountingTrace.cfg", label="random histories on three variables")
    ck.conform("counting", tr[:ck.q(80, 800)], "CountingTrace", "CountingTrace.cfg", label="random histories, with sanitizers", san=True)
