"""C11: hierarchical scheme (spec/Lsp.tla, ExpectedH)."""
import os
import catalog


def run(ck):
    cats = catalog.write(os.path.join(ck.work, "cats.ndjson"), ck.q(80, 600), ck.seed + 11000, kind=1, maxp=3, pz=0.4, ve=0.02)
    tr = ck.sim_traces("LspGen", "LspSim.cfg", num=ck.q(600, 3000), depth=40, env=dict(CATS=cats))
    ck.conform("lsp", tr, "LspTrace", "LspTrace.cfg", label="random histories of problems under the hierarchical scheme")
