"""C16: interval algebra (spec/Ranges.tla), partitions of variables (spec/Counting.tla)."""


def run(ck):
    rs = [[s, d] for s in range(-3, 5) for d in range(0, 5)]
    tr = [dict(cfg=0, c=[dict(r=r, l=rs)]) for r in rs]
    ck.conform("ranges", tr, "Ranges", "RangesTrace.cfg", label="every pair of ranges starting in -3..4 with 0..4 elements")
    tr = ck.sim_traces("CountingGen", "PartitionSim.cfg", num=ck.q(500, 6000), depth=60)
    ck.conform("counting", tr, "CountingTrace", "CountingTrace.cfg", label="random histories of additions, removals and iterations over the parts")
    ck.conform("counting", tr[:ck.q(80, 800)], "CountingTrace", "CountingTrace.cfg", label="random histories of additions, removals and iterations, with sanitizers", san=True)
