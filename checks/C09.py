"""C09: conventions of constraints and solvers (spec/Conv.tla), and end to end (spec/Lsp.tla)."""
import os
import catalog


def run(ck):
    tr = ck.sim_traces("ConvGen", "ConvSim.cfg", num=ck.q(1500, 20000), depth=4000)
    ck.conform("conv", tr, "ConvTrace", "ConvTrace.cfg", label="random histories of assignments", san=ck.thorough)
    cats = catalog.write(os.path.join(ck.work, "cats.ndjson"), ck.q(80, 600), ck.seed + 9000)
    tr = ck.sim_traces("LspGen", "LspSim.cfg", num=ck.q(250, 3000), depth=40, env=dict(CATS=cats))
    ck.conform("lsp", tr, "LspTrace", "LspTrace.cfg", label="random histories of problems under the three sets of conventions")
