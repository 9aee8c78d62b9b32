// Control problems under WeightedLeastSquares schemes with recording solvers.
#include "lspcommon.h"
#include <tvm/hint/Substitution.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
using namespace lsp;
struct L : mbv::Sut
{
  J cfg;
  World w;
  std::vector<TaskDef> tasks;
  std::vector<std::unique_ptr<LinearizedControlProblem>> pbs;
  std::vector<std::shared_ptr<rec::Ctrl>> ctrl;
  std::vector<std::unique_ptr<scheme::WeightedLeastSquares>> schemes;
  std::vector<std::shared_ptr<rec::HCtrl>> hctrl;
  std::vector<std::unique_ptr<scheme::HierarchicalLeastSquares>> hschemes;
  std::map<std::string, std::shared_ptr<hint::Substitution>> subs;

  L(const J & c) : cfg(c), w(c["dims"])
  {
    for(const auto & t : c["tasks"].a) tasks.push_back(makeTask(w, t));
    for(int k = 0; k < c["np"].n(); ++k) pbs.push_back(std::make_unique<LinearizedControlProblem>());
    for(const auto & s : c["schemes"].a)
    {
      ctrl.push_back(nullptr);
      hctrl.push_back(nullptr);
      schemes.push_back(nullptr);
      hschemes.push_back(nullptr);
      if(s["kind"].n() == 1)
      {
        hctrl.back() = std::make_shared<rec::HCtrl>();
        hctrl.back()->variant = s["v"].n() % 2;
        scheme::HierarchicalLeastSquaresOptions o;
        o.autoDamping(s["damp"].n() != 0);
        hschemes.back() = std::make_unique<scheme::HierarchicalLeastSquares>(rec::RecHlsFactory(hctrl.back()), o);
        continue;
      }
      auto q = std::make_shared<rec::Ctrl>();
      q->variant = s["v"].n();
      ctrl.back() = q;
      scheme::WeightedLeastSquaresOptions o;
      o.scalarizationWeight(2);
      o.autoDamping(s["damp"].n() != 0);
      schemes.back() = std::make_unique<scheme::WeightedLeastSquares>(rec::RecFactory(q), o);
    }
  }
  LinearizedControlProblem & pb(const J & c) { return *pbs.at(static_cast<size_t>(c["k"].n())); }
  TaskDef & task(const J & c) { return tasks.at(static_cast<size_t>(c["t"].n())); }
  static J done() { J r = J::obj(); r.set("ok", J(1)); return r; }
  J step(const J & c) override
  {
    if(c["op"].is("add")) { pb(c).add(task(c).tr); return done(); }
    if(c["op"].is("remove")) { pb(c).remove(*task(c).tr); return done(); }
    if(c["op"].is("weight")) { task(c).tr->requirements.weight() = static_cast<double>(c["w"].n()); return done(); }
    if(c["op"].is("aweight")) { task(c).tr->requirements.anisotropicWeight() = toVec(c["aw"]); return done(); }
    if(c["op"].is("b")) { task(c).f->b(toVec(c["b"])); return done(); }
    if(c["op"].is("A"))
    {
      auto & t = task(c);
      size_t k = static_cast<size_t>(c["i"].n());
      t.f->A(toMat(c["M"]), *t.x.at(k), props(cfg["tasks"][static_cast<size_t>(c["t"].n())]["bl"][k]["p"].s));
      return done();
    }
    if(c["op"].is("x"))
    {
      auto x = w.base(c["v"].n(), c["d"].n());
      x->set(toVec(c["x"]));
      return done();
    }
    if(c["op"].is("solve"))
    {
      size_t s = static_cast<size_t>(c["s"].n());
      J r = J::obj();
      auto run = [&](auto & q, auto & sch, auto canon) {
        q.success = c["ok"].n() != 0;
        q.answer = [&](const auto & x) {
          auto m = w.map(x.vars);
          Eigen::VectorXd v(static_cast<long>(m.size()));
          for(size_t k = 0; k < m.size(); ++k) v(static_cast<long>(k)) = m[k] < 0 ? 0 : c["sol"][static_cast<size_t>(m[k])].n();
          return v;
        };
        int before = q.solves;
        bool b = sch.solve(pb(c));
        r.set("ok", J(b ? 1 : 0)).set("n", q.solves - before);
        if(q.solves > before) r.set("q", canon(w, q.last)); else r.set("q", 0);
      };
      if(schemes[s]) run(*ctrl[s], *schemes[s], canonical);
      else run(*hctrl[s], *hschemes[s], canonicalH);
      return r;
    }
    std::cerr << "unknown command" << std::endl;
    std::_Exit(77);
  }
  J observe() override
  {
    J o = J::obj();
    o.set("val", w.values());
    J sz = J::arr();
    for(auto & p : pbs) sz.push(J(p->size()));
    o.set("size", sz);
    return o;
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J & c) { return std::make_unique<L>(c); }); }
