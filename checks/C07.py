"""C07: the problem handed to the solver depends on the current state only (spec/Lsp.tla)."""
import os
import catalog


def run(ck):
    cats = catalog.write(os.path.join(ck.work, "cats.ndjson"), ck.q(200, 800), ck.seed)
    tr = ck.sim_traces("LspGen", "LspSim.cfg", num=ck.q(800, 4000), depth=40, env=dict(CATS=cats))
    ck.conform("lsp", tr, "LspTrace", "LspTrace.cfg", label="random histories of control problems")
