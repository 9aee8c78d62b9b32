// Replays declarations of nodes, inputs and update graphs.
#include "mbv.h"
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/utils/graph.h>
using mbv::J;
using tvm::graph::CallGraph;
using tvm::graph::internal::Inputs;

static J * theLog = nullptr;

struct BNode : tvm::graph::abstract::Node<BNode>
{
  SET_OUTPUTS(BNode, O1, O2)
  SET_UPDATES(BNode, U1, U2)
  int id = 0;
  BNode() { registerUpdates(BNode::Update::U1, &BNode::u1, BNode::Update::U2, &BNode::u2); }
  void log(int u) { theLog->push(J::arr().push(id).push(u)); }
  void u1() { log(1); }
  void u2() { log(2); }
};
struct DNode : BNode
{
  SET_OUTPUTS(DNode, O3)
  SET_UPDATES(DNode, U3)
  DNode() { registerUpdates(DNode::Update::U3, &DNode::u3); }
  void u3() { log(3); }

  template<typename F> static void upd(int u, F f) { if(u <= 2) f(static_cast<BNode::Update_>(u - 1)); else f(static_cast<DNode::Update_>(u - 1)); }
  template<typename F> static void out(int o, F f) { if(o <= 2) f(static_cast<BNode::Output_>(o - 1)); else f(static_cast<DNode::Output_>(o - 1)); }

  void intern(int u, int v) { upd(u, [&](auto a) { upd(v, [&](auto b) { this->addInternalDependency<DNode>(a, b); }); }); }
  void output(int o, int u)
  {
    out(o, [&](auto a) { upd(u, [&](auto b) {
      if((o + u) % 2) this->addOutputDependency<DNode>(a, b);
      else this->addOutputDependency<DNode>({a, a}, b); }); });
  }
  template<typename Src, typename S> void input(int u, S && s, const J & os)
  {
    upd(u, [&](auto a) { Src::out(os[0].n(), [&](auto x) {
      if(os.size() == 1) this->addInputDependency<DNode>(a, s, x);
      else Src::out(os[1].n(), [&](auto y) { this->addInputDependency<DNode>(a, s, x, y); }); }); });
  }
  template<typename Src, typename S> void direct(int o, S && s, int p) { out(o, [&](auto a) { Src::out(p, [&](auto x) { this->addDirectDependency<DNode>(a, s, x); }); }); }
};
struct BSource : tvm::graph::abstract::Outputs
{
  SET_OUTPUTS(BSource, O1, O2)
};
struct DSource : BSource
{
  SET_OUTPUTS(DSource, O3)
  template<typename F> static void out(int o, F f) { if(o <= 2) f(static_cast<BSource::Output_>(o - 1)); else f(static_cast<DSource::Output_>(o - 1)); }
};

struct UGraphSut : mbv::Sut
{
  static constexpr int NN = 4, NI = 2, NG = 2;
  std::shared_ptr<DNode> n[NN + 1];
  std::shared_ptr<DSource> src = std::make_shared<DSource>();
  std::shared_ptr<Inputs> in[NI + 1];
  std::unique_ptr<CallGraph> g[NG + 1];
  J log;
  UGraphSut()
  {
    theLog = &log;
    for(int k = 1; k <= NN; ++k) { n[k] = std::make_shared<DNode>(); n[k]->id = k; }
    for(int k = 1; k <= NI; ++k) in[k] = std::make_shared<Inputs>();
    for(int k = 1; k <= NG; ++k) g[k] = std::make_unique<CallGraph>();
  }
  std::shared_ptr<Inputs> inputs(int i) { return i <= NI ? in[i] : std::static_pointer_cast<Inputs>(n[i - NI]); }
  template<typename F> void source(int m, F f) { if(m <= NN) f(n[m]); else f(src); }
  static J ok() { return J::obj().set("ok", 1); }
  template<typename... A>
  std::unique_ptr<CallGraph> gen(const J & rs, size_t at, A &&... a)
  {
    std::unique_ptr<CallGraph> r;
    if constexpr(sizeof...(A) > 0)
      if(at == rs.size()) return tvm::utils::generateUpdateGraph(a...);
    if constexpr(sizeof...(A) < 6)
      source(rs[at][0].n(), [&](auto s) {
        std::decay_t<decltype(*s)>::out(rs[at][1].n(), [&](auto o) { r = this->gen(rs, at + 1, a..., s, o); }); });
    return r;
  }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    log = J::arr();
    if(op == "int") n[c["n"].n()]->intern(c["u"].n(), c["v"].n());
    else if(op == "out") n[c["n"].n()]->output(c["o"].n(), c["u"].n());
    else if(op == "in") source(c["m"].n(), [&](auto & s) {
        if(c["sh"].n()) n[c["n"].n()]->template input<std::decay_t<decltype(*s)>>(c["u"].n(), s, c["os"]);
        else n[c["n"].n()]->template input<std::decay_t<decltype(*s)>>(c["u"].n(), *s, c["os"]); });
    else if(op == "dir") source(c["m"].n(), [&](auto & s) {
        if(c["sh"].n()) n[c["n"].n()]->template direct<std::decay_t<decltype(*s)>>(c["o"].n(), s, c["p"].n());
        else n[c["n"].n()]->template direct<std::decay_t<decltype(*s)>>(c["o"].n(), *s, c["p"].n()); });
    else if(op == "inp") source(c["n"].n(), [&](auto & s) {
        using S = std::decay_t<decltype(*s)>;
        auto & i = *in[c["i"].n()];
        const J & os = c["os"];
        S::out(os[0].n(), [&](auto x) {
          if(os.size() == 1) { if(c["sh"].n()) i.addInput(s, x); else i.addInput(*s, x); }
          else S::out(os[1].n(), [&](auto y) { if(c["sh"].n()) i.addInput(s, x, y); else i.addInput(*s, x, y); }); }); });
    else if(op == "rem") source(c["n"].n(), [&](auto & s) { in[c["i"].n()]->removeInput(s.get()); });
    else if(op == "remo") source(c["n"].n(), [&](auto & s) {
        using S = std::decay_t<decltype(*s)>;
        S::out(c["os"][0].n(), [&](auto x) { in[c["i"].n()]->removeInput(s.get(), x); }); });
    else if(op == "add") g[c["g"].n()]->add(inputs(c["i"].n()));
    else if(op == "upd") g[c["g"].n()]->update();
    else if(op == "clr") g[c["g"].n()]->clear();
    else if(op == "exe") { g[c["g"].n()]->execute(); return J::obj().set("log", log); }
    else if(op == "gen") { auto x = gen(c["rs"], 0); x->execute(); return J::obj().set("log", log); }
    if(log.size()) return J::obj().set("log", log); // nothing else may run an update
    return ok();
  }
  J observe() override
  {
    J r = J::arr();
    for(int i = 1; i <= NI + NN; ++i)
    {
      J l = J::arr();
      auto p = inputs(i);
      for(int m = 1; m <= NN + 1; ++m)
        source(m, [&](auto & s) {
          auto it = p->getInput(s);
          if(it) for(int o : it->second) l.push(J::arr().push(m).push(o + 1)); });
      r.push(l);
    }
    return J::obj().set("inp", r);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<UGraphSut>(); }); }
