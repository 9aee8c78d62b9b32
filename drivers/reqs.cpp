// Replays command sequences on SolvingRequirements (light) and SolvingRequirementsWithCallbacks.
#include "mbv.h"
#include <tvm/requirements/SolvingRequirements.h>
using mbv::J;
using namespace tvm::requirements;
using tvm::internal::PairElementToken;
using VE = ViolationEvaluationType;
static Eigen::VectorXd aw(int v) { Eigen::VectorXd r; if(v == 0) return r; r.resize(3); r << v, v + 1, 2 * std::abs(v); return r; }
static int unaw(const Eigen::VectorXd & a)
{
  if(a.size() == 0) return 0;
  int v = static_cast<int>(std::lround(a(0)));
  return aw(v) == a ? v : -1000;
}
static VE ve(int v) { return v == 0 ? VE::L1 : v == 1 ? VE::L2 : VE::LINF; }
static int unve(VE v) { return v == VE::L1 ? 0 : v == VE::L2 ? 1 : 2; }
static int unw(double w) { return w == std::lround(w) ? static_cast<int>(w) : -1000; }
template<typename O> J obs(const O & o, int k)
{
  auto r = [](int v, bool d) { return J::obj().set("v", v).set("d", d ? 1 : 0); };
  switch(k)
  {
    case 1: return r(o.priorityLevel().value(), o.priorityLevel().isDefault());
    case 2: return r(unw(o.weight().value()), o.weight().isDefault());
    case 3: return r(unaw(o.anisotropicWeight().value()), o.anisotropicWeight().isDefault());
    default: return r(unve(o.violationEvaluation().value()), o.violationEvaluation().isDefault());
  }
}
struct Reqs : mbv::Sut
{
  using L = SolvingRequirements;
  using F = SolvingRequirementsWithCallbacks;
  static constexpr int N = 4;
  std::unique_ptr<L> l[N + 1];
  std::unique_ptr<F> f[N + 1];
  std::map<int, PairElementToken> tokens;
  int next = 1;
  J log;

  template<typename O, bool Lw, unsigned Used, typename... Args>
  std::unique_ptr<O> make(const J & args, size_t at, const Args &... a)
  {
    if(at == args.size()) return std::unique_ptr<O>(new O(a...));
    const int k = args[at][0].n(), v = args[at][1].n();
    if constexpr(!(Used & 1u)) if(k == 1) return make<O, Lw, Used | 1u>(args, at + 1, a..., PriorityLevelBase<Lw>(v));
    if constexpr(!(Used & 2u)) if(k == 2) return make<O, Lw, Used | 2u>(args, at + 1, a..., WeightBase<Lw>(v));
    if constexpr(!(Used & 4u)) if(k == 3) return make<O, Lw, Used | 4u>(args, at + 1, a..., AnisotropicWeightBase<Lw>(aw(v)));
    if constexpr(!(Used & 8u)) if(k == 4) return make<O, Lw, Used | 8u>(args, at + 1, a..., ViolationEvaluationBase<Lw>(ve(v)));
    std::cerr << "driver: bad arguments" << std::endl;
    std::_Exit(77);
  }
  template<typename Fn> void with(int o, Fn fn) { if(l[o]) fn(*l[o]); else fn(*f[o]); }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const int o = c.has("o") ? c["o"].n() : 0, o2 = c.has("o2") ? c["o2"].n() : 0, k = c.has("k") ? c["k"].n() : 0, v = c.has("v") ? c["v"].n() : 0;
    log = J::arr();
    if(op == "build")
    {
      const bool na = c["na"].n();
      if(c["t"].is("l")) l[o] = na ? make<L, false, 0>(c["args"], 0) : make<L, true, 0>(c["args"], 0);
      else f[o] = make<F, true, 0>(c["args"], 0);
    }
    else if(op == "full") f[o] = std::make_unique<F>(*l[o2]);
    else if(op == "copy") l[o] = std::make_unique<L>(*l[o2]);
    else if(op == "assign") *l[o] = *l[o2];
    else if(op == "set") with(o, [&](auto & x) {
        if(k == 1) x.priorityLevel().value(v);
        if(k == 2) x.weight().value(v);
        if(k == 3) x.anisotropicWeight().value(aw(v));
        if(k == 4) x.violationEvaluation().value(ve(v)); });
    else if(op == "seteq") with(o, [&](auto & x) {
        if(k == 1) x.priorityLevel() = v;
        if(k == 2) x.weight() = static_cast<double>(v);
        if(k == 3) x.anisotropicWeight() = aw(v);
        if(k == 4) x.violationEvaluation() = ve(v); });
    else if(op == "reset") with(o, [&](auto & x) {
        if(k == 1) x.priorityLevel() = PriorityLevel();
        if(k == 2) x.weight() = Weight();
        if(k == 3) x.anisotropicWeight() = AnisotropicWeight();
        if(k == 4) x.violationEvaluation() = ViolationEvaluation(); });
    else if(op == "from")
    {
      auto put = [&](auto & x, const auto & y) {
        if(k == 1) x.priorityLevel() = y.priorityLevel();
        if(k == 2) x.weight() = y.weight();
        if(k == 3) x.anisotropicWeight() = y.anisotropicWeight();
        if(k == 4) x.violationEvaluation() = y.violationEvaluation(); };
      if(l[o] && l[o2]) put(*l[o], *l[o2]);
      else if(l[o]) put(*l[o], *f[o2]);
      else put(*f[o], *l[o2]);
    }
    else if(op == "drop") { l[o].reset(); f[o].reset(); }
    else if(op == "reg")
    {
      const int n = next++;
      F * p = f[o].get();
      auto cb = [this, n, p, k]() { log.push(J::obj().set("c", n).set("x", obs(*p, k))); };
      if(k == 1) tokens[n] = p->priorityLevel().registerCallback(cb);
      if(k == 2) tokens[n] = p->weight().registerCallback(cb);
      if(k == 3) tokens[n] = p->anisotropicWeight().registerCallback(cb);
      if(k == 4) tokens[n] = p->violationEvaluation().registerCallback(cb);
    }
    else if(op == "rel") tokens.erase(c["c"].n());
    return J::obj().set("log", log);
  }
  J observe() override
  {
    J r = J::arr();
    for(int o = 1; o <= N; ++o)
    {
      J x = J::arr();
      for(int k = 1; k <= 4; ++k)
      {
        if(l[o]) x.push(obs(*l[o], k));
        else if(f[o]) x.push(obs(*f[o], k));
      }
      r.push(x);
    }
    return J::obj().set("o", r);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<Reqs>(); }); }
