"""C20: solve writes the solution back; refusals and failures change nothing else (spec/Lsp.tla)."""
import os
import catalog


def run(ck):
    cats = catalog.write(os.path.join(ck.work, "cats.ndjson"), ck.q(60, 600), ck.seed + 7000, bad=0.25, ve=0.12, fail=35)
    tr = ck.sim_traces("LspGen", "LspSim.cfg", num=ck.q(600, 3000), depth=40, env=dict(CATS=cats))
    ck.conform("lsp", tr, "LspTrace", "LspTrace.cfg", label="histories with failing solvers and tasks the scheme cannot handle")
