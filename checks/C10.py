"""C10: substitutions (spec/Subst.tla)."""
import os
import subcat


def run(ck):
    cats = subcat.write(os.path.join(ck.work, "cats.ndjson"), ck.q(300, 3000), ck.seed)
    tr = ck.sim_traces("SubstGen", "SubstSim.cfg", num=ck.q(900, 9000), depth=4000, env=dict(CATS=cats))
    ck.conform("subst", tr, "SubstTrace", "SubstTrace.cfg", label="random histories of problems with substitutions", san=ck.thorough)
