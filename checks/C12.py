"""C12: properties of matrices (spec/Props.tla)."""


def run(ck):
    tr = ck.list_traces("PropsGen", "PropsT.cfg" if ck.thorough else "PropsQ.cfg")
    ck.conform("props", tr, "PropsTrace", "PropsTrace.cfg", label="every declaration and operation", san=ck.thorough)
