"""C18: pair tokens and callbacks (spec/Tokens.tla)."""


def run(ck):
    ck.model("TokensGen", ck.q("TokensMC.cfg", "TokensMC3.cfg"))
    tr = ck.graph_traces("TokensGen", "TokensG.cfg")
    ck.conform("tokens", tr, "TokensTrace", "TokensTrace.cfg", label="every transition of four tokens and one callback", san=ck.thorough)
    tr = ck.list_traces("TokensGen", "TokensE.cfg")
    ck.conform("tokens", tr, "TokensTrace", "TokensTrace.cfg", label="every reaction of two steps of one callback among three", san=ck.thorough)
    tr = ck.sim_traces("TokensGen", "TokensSim.cfg", num=ck.q(400, 6000), depth=40)
    ck.conform("tokens", tr, "TokensTrace", "TokensTrace.cfg", label="random histories of tokens and callbacks", san=ck.thorough)
