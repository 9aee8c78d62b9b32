// Replays command sequences on control problems solved by recording resolution schemes.
#include "mbv.h"
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/exception/exceptions.h>
#include <tvm/function/abstract/LinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/abstract/ResolutionScheme.h>
#include <tvm/scheme/internal/LinearizedProblemComputationData.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
using mbv::J;
using namespace tvm;
constexpr int K = 2, T = 4, S = 2;

/** Linear function counting its updates */
struct LinF : function::abstract::LinearFunction
{
  int runs = 0;
  LinF(VariablePtr x, VariablePtr y, double a) : LinearFunction(x->size())
  {
    addVariable(x, true);
    addVariable(y, true);
    const long n = x->size();
    jacobian_[x.get()] = 2 * Eigen::MatrixXd::Identity(n, n);
    jacobian_[x.get()].properties(tvm::internal::MatrixProperties({tvm::internal::MatrixProperties::MULTIPLE_OF_IDENTITY, tvm::internal::MatrixProperties::POSITIVE_DEFINITE, tvm::internal::MatrixProperties::Constness(true)}));
    jacobian_[y.get()] = a * Eigen::MatrixXd::Identity(n, n);
    b_.setZero();
  }
  void updateValue_() override { ++runs; LinearFunction::updateValue_(); }
};
/** A function that is not linear: cannot be linearised at order 0 */
struct NonLin : function::abstract::Function
{
  NonLin(VariablePtr x) : Function(1) { addVariable(x, false); }
};

using EvT = scheme::internal::ProblemDefinitionEvent::Type;
struct World;
struct Mem : scheme::internal::LinearizedProblemComputationData
{
  Mem(int id) : LinearizedProblemComputationData(id) {}
  void setVariablesToSolution_(tvm::internal::VariableCountingVector &) override {}
  J read = J::arr();
};
struct RecScheme : scheme::abstract::LinearResolutionScheme<RecScheme>
{
  using ComputationDataType = Mem;
  World & w;
  RecScheme(World & world);
  bool solve_(const LinearizedControlProblem &, scheme::internal::ProblemComputationData *) const;
  void updateComputationData_(const LinearizedControlProblem &, scheme::internal::ProblemComputationData * d) const;
  std::unique_ptr<Mem> createComputationData_(const LinearizedControlProblem &) const;
};

struct World : mbv::Sut
{
  std::vector<VariablePtr> x;
  VariablePtr y;
  std::vector<std::shared_ptr<LinF>> f;
  std::vector<TaskWithRequirementsPtr> tr; // [t], 0: the one that cannot be linearised
  std::vector<std::weak_ptr<TaskWithRequirements>> old; // keep the addresses of the dead ones
  std::map<const void *, int> index;
  std::unique_ptr<ControlProblem> plain;
  std::vector<std::unique_ptr<LinearizedControlProblem>> pb;
  std::vector<std::unique_ptr<RecScheme>> scheme;
  std::map<int, std::vector<std::pair<std::vector<int>, hint::Substitution>>> handles; // substitutions as the user holds them
  mutable J read = J::arr();
  mutable int created = 0;
  bool failing = false;
  int nw = 0;

  void task(int t)
  {
    auto & p = tr[static_cast<size_t>(t)];
    if(p) old.push_back(p);
    if(t == 0)
      p = std::make_shared<TaskWithRequirements>(Task(std::make_shared<NonLin>(y), constraint::Type::EQUAL, task_dynamics::Constant(), Eigen::VectorXd::Zero(1)), requirements::SolvingRequirements());
    else
    {
      Task tk(f[static_cast<size_t>(t)], t == 4 ? constraint::Type::GREATER_THAN : constraint::Type::EQUAL, task_dynamics::None(), Eigen::VectorXd::Ones(1));
#ifdef __SANITIZE_ADDRESS__
      p = std::shared_ptr<TaskWithRequirements>(new TaskWithRequirements(tk, requirements::SolvingRequirements(requirements::PriorityLevel(t % 2))));
#else
      p = std::make_shared<TaskWithRequirements>(tk, requirements::SolvingRequirements(requirements::PriorityLevel(t % 2)));
#endif
    }
    index[p.get()] = t;
  }
  World() : x(T + 1), f(T + 1), tr(T + 1), pb(K + 1)
  {
    y = Space(1).createVariable("y");
    for(int t = 1; t <= T; ++t)
    {
      x[static_cast<size_t>(t)] = Space(1).createVariable("x" + std::to_string(t));
      f[static_cast<size_t>(t)] = std::make_shared<LinF>(x[static_cast<size_t>(t)], y, t);
      x[static_cast<size_t>(t)]->set(Eigen::VectorXd::Zero(1));
    }
    y->set(Eigen::VectorXd::Zero(1));
    for(int t = 0; t <= T; ++t) task(t);
    plain = std::make_unique<ControlProblem>();
    for(int k = 1; k <= K; ++k) pb[static_cast<size_t>(k)] = std::make_unique<LinearizedControlProblem>();
    for(int s = 0; s <= S; ++s) scheme.push_back(std::make_unique<RecScheme>(*this));
  }
  int t(const void * p) const { auto it = index.find(p); return it == index.end() ? -1 : it->second; }
  hint::Substitution makeSub(int k, const J & c)
  {
    std::vector<LinearConstraintPtr> cs;
    std::vector<VariablePtr> xs;
    for(int v : c.ints())
    {
      cs.push_back(pb[static_cast<size_t>(k)]->constraint(*tr[static_cast<size_t>(v)]));
      xs.push_back(x[static_cast<size_t>(v)]);
    }
    return hint::Substitution(cs, xs);
  }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const J ok = J::obj().set("ok", 1);
    const size_t k = static_cast<size_t>(c["k"].n());
    if(op == "sadd")
    {
      auto s = makeSub(c["k"].n(), c["x"]);
      handles[c["k"].n()].emplace_back(c["x"].ints(), s);
      pb[k]->add(s);
      return ok;
    }
    if(op == "srm")
    {
      auto & h = handles[c["k"].n()];
      for(auto it = h.begin(); it != h.end(); ++it)
        if(it->first == c["x"].ints())
        {
          pb[k]->remove(it->second);
          h.erase(it);
          return ok;
        }
      return J::obj().set("ok", 0);
    }
    const size_t t = static_cast<size_t>(c["t"].n());
    if(op == "add") { if(k) pb[k]->add(tr[t]); else plain->add(tr[t]); return ok; }
    if(op == "addbad") { pb[k]->add(tr[0]); return ok; }
    if(op == "rm")
    {
      if(k) pb[k]->remove(*tr[t]); else plain->remove(*tr[t]);
      forget(c["k"].n(), c["t"].n());
      return ok;
    }
    if(op == "rmlast")
    {
      TaskWithRequirements * raw = tr[t].get();
      old.push_back(tr[t]);
      tr[t].reset(); // the problem holds the last reference
      try { if(k) pb[k]->remove(*raw); else plain->remove(*raw); }
      catch(const std::exception &) { tr[t] = old.back().lock(); throw; }
      task(c["t"].n());
      forget(c["k"].n(), c["t"].n());
      return ok;
    }
    if(op == "w")
    {
      ++nw;
      auto & w = tr[t]->requirements.weight();
      if(nw % 3 == 0) w.value(1 + nw); else if(nw % 3 == 1) w = 1. + nw; else w = requirements::Weight(1 + nw);
      return ok;
    }
    if(op == "aw")
    {
      ++nw;
      auto & w = tr[t]->requirements.anisotropicWeight();
      const Eigen::VectorXd v = Eigen::VectorXd::Constant(1, 1 + nw);
      if(nw % 3 == 0) w.value(v); else if(nw % 3 == 1) w = v; else w = requirements::AnisotropicWeight(v);
      return ok;
    }
    if(op == "solve" || op == "solvex")
    {
      failing = op == "solvex";
      read = J::arr();
      created = 0;
      struct R { bool & b; ~R() { b = false; } } r{failing};
      if(!scheme[t]->solve(*pb[k])) return J::obj().set("ok", 0);
      return J::obj().set("ev", read).set("created", created);
    }
    if(op == "update")
    {
      std::vector<int> before;
      for(size_t j = 1; j <= T; ++j) before.push_back(f[j]->runs);
      if(k) pb[k]->update(); else plain->update();
      J runs = J::arr();
      for(size_t j = 1; j <= T; ++j) runs.push(f[j]->runs - before[j - 1]);
      return J::obj().set("runs", runs);
    }
    if(op == "reset") { handles[c["k"].n()].clear(); if(k) pb[k] = std::make_unique<LinearizedControlProblem>(); else plain = std::make_unique<ControlProblem>(); return ok; }
    if(op == "copy")
    {
      handles[c["k"].n()].clear();
      const ControlProblem & src = t ? static_cast<const ControlProblem &>(*pb[t]) : *plain;
      pb[k] = std::make_unique<LinearizedControlProblem>(src);
      return ok;
    }
    if(op == "scheme") { scheme[t] = std::make_unique<RecScheme>(*this); return ok; }
    std::abort();
  }
  void forget(int k, int t)
  {
    auto & h = handles[k];
    for(auto it = h.begin(); it != h.end();) if(it->first.size() == 1 && it->first[0] == t) it = h.erase(it); else ++it;
  }
  J observe() override
  {
    J o = J::arr();
    for(size_t k = 0; k <= K; ++k)
    {
      const ControlProblem & p = k ? static_cast<const ControlProblem &>(*pb[k]) : *plain;
      J e = J::obj(), ts = J::arr(), cs = J::arr(), has = J::arr(), su = J::arr();
      for(const auto & q : p.tasks()) ts.push(t(q.get()));
      e.set("tasks", ts).set("size", p.size());
      if(k)
      {
        const auto & lp = *pb[k];
        const auto list = lp.constraints();
        for(const auto & l : list)
        {
          // which task does this constraint come from
          int who = -1;
          for(const auto & m : lp.constraintMap())
            if(m.second.constraint == l.constraint && m.second.requirements == l.requirements && &m.first->requirements == l.requirements.get()) who = t(m.first);
          cs.push(who);
        }
        for(int j = 0; j <= T; ++j)
          if(auto & q = tr[static_cast<size_t>(j)])
          {
            bool a = lp.constraintNoThrow(*q) != nullptr, b = lp.constraintWithRequirementsNoThrow(*q).has_value(), d = true;
            try { d = lp.constraint(*q) == lp.constraintNoThrow(*q) && lp.constraintWithRequirements(*q).constraint == lp.constraintNoThrow(*q); }
            catch(const std::exception &) { d = false; }
            if(a != b || a != d) has.push(-2);
            if(a) has.push(j);
          }
        for(const auto & s : lp.substitutions().substitutions())
        {
          J g = J::arr();
          for(const auto & v : s.variables())
            for(int j = 1; j <= T; ++j) if(x[static_cast<size_t>(j)] == v) g.push(j);
          su.push(g);
        }
      }
      e.set("cstr", cs).set("has", has).set("subs", su);
      o.push(e);
    }
    return o;
  }
};
RecScheme::RecScheme(World & world)
: LinearResolutionScheme<RecScheme>({scheme::internal::NoLimit, {{scheme::internal::GeneralLevel, {true, {requirements::ViolationEvaluationType::L2}}}}, true}), w(world)
{}
bool RecScheme::solve_(const LinearizedControlProblem &, scheme::internal::ProblemComputationData * d) const { return static_cast<Mem *>(d)->solverId() == id(); }
void RecScheme::updateComputationData_(const LinearizedControlProblem &, scheme::internal::ProblemComputationData * d) const
{
  while(d->hasEvents())
  {
    auto e = d->popEvent();
    std::string y;
    switch(e.type())
    {
      case EvT::WeightChange: y = "w"; break;
      case EvT::AnisotropicWeightChange: y = "aw"; break;
      case EvT::TaskAddition: y = "add"; break;
      case EvT::TaskRemoval: y = "rm"; break;
      case EvT::SubstitutionAddition: y = "sadd"; break;
      case EvT::SubstitutionRemoval: y = "srm"; break;
    }
    w.read.push(J::obj().set("y", y).set("t", y[0] == 's' ? 0 : w.t(e.emitter())));
  }
}
std::unique_ptr<Mem> RecScheme::createComputationData_(const LinearizedControlProblem &) const
{
  if(w.failing) throw std::runtime_error("refused by the scheme");
  w.created = 1;
  return std::unique_ptr<Mem>(new Mem(id()));
}
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<World>(); }); }
