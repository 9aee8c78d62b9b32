// Replays command sequences on tvm::graph::internal::DependencyGraph.
#include "mbv.h"
#include <tvm/graph/internal/DependencyGraph.h>
using mbv::J;
struct G : mbv::Sut
{
  tvm::graph::internal::DependencyGraph g;
  J step(const J & c) override
  {
    if(c["op"].is("addNode")) return J(g.addNode());
    if(c["op"].is("addEdge")) return J(g.addEdge(static_cast<size_t>(c["f"].n()), static_cast<size_t>(c["t"].n())));
    if(c["op"].is("removeNode")) { g.removeNode(static_cast<size_t>(c["k"].n())); return J(0); }
    g.clear();
    return J(0);
  }
  template<typename F> J tryit(F f)
  {
    try { J v = f(); return J::obj().set("ok", 1).set("v", v); }
    catch(const std::exception &) { return J::obj().set("ok", 0); }
  }
  static J edges(const tvm::graph::internal::DependencyGraph & h)
  {
    J r = J::arr();
    for(const auto & e : h.edges()) r.push(J::arr().push(e.first).push(e.second));
    return r;
  }
  static J lists(const std::vector<std::vector<size_t>> & l) { J r = J::arr(); for(auto & x : l) r.push(J::arrOf(x)); return r; }
  J observe() override
  {
    J o = J::obj();
    o.set("size", g.size()).set("edges", edges(g));
    o.set("order", tryit([&]() { return J::arrOf(g.order()); }));
    o.set("grouped", tryit([&]() { return lists(g.groupedOrder()); }));
    auto r = g.reduce();
    o.set("reduce", J::obj().set("groups", lists(r.first)).set("size", r.second.size()).set("edges", edges(r.second)));
    return o;
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<G>(); }); }
