// Shared by the drivers on control problems: variables, tasks built from a catalog, canonical form of a recorded problem.
#pragma once
#include "mbv.h"
#include "rechls.h"
#include "recsolver.h"
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>

namespace lsp
{
using mbv::J;
using namespace tvm;

inline Eigen::MatrixXd toMat(const J & m, long cols = -1)
{
  Eigen::MatrixXd r(static_cast<long>(m.size()), m.size() ? static_cast<long>(m[0].size()) : std::max(0l, cols));
  for(size_t i = 0; i < m.size(); ++i)
    for(size_t k = 0; k < m[i].size(); ++k) r(static_cast<long>(i), static_cast<long>(k)) = m[i][k].n();
  return r;
}
inline Eigen::VectorXd toVec(const J & v)
{
  Eigen::VectorXd r(static_cast<long>(v.size()));
  for(size_t i = 0; i < v.size(); ++i) r(static_cast<long>(i)) = v[i].n();
  return r;
}

/** Variables and their fixed global numbering of columns: col = d * N + offset(v) + component. */
struct World
{
  std::vector<VariablePtr> vars;
  std::vector<int> off;
  int N = 0, D = 2;
  std::map<std::string, VariablePtr> subs;
  World(const J & dims, int derivatives = 2) : D(derivatives)
  {
    for(const auto & d : dims.a)
    {
      off.push_back(N);
      vars.push_back(Space(d.n()).createVariable("v" + std::to_string(vars.size())));
      N += d.n();
    }
  }
  int cols() const { return D * N; }
  VariablePtr base(int v, int d) { return d == 0 ? vars.at(static_cast<size_t>(v)) : dot(vars.at(static_cast<size_t>(v)), d); }
  VariablePtr get(int v, int o, int len, int d)
  {
    auto b = vars.at(static_cast<size_t>(v));
    if(len == b->size()) return base(v, d);
    std::string k = std::to_string(v) + "." + std::to_string(o) + "." + std::to_string(len);
    auto & s = subs[k];
    if(!s) s = b->subvariable(Space(len), "s" + k, Space(o));
    return d == 0 ? s : dot(s, d);
  }
  /** global column of component 0 of x (-1 if unknown) */
  int col(const Variable & x) const
  {
    auto s = x.superVariable();
    int d = s->derivativeNumber();
    auto b = s->basePrimitive();
    for(size_t k = 0; k < vars.size(); ++k)
      if(vars[k] == b) return d >= D ? -1 : d * N + off[k] + x.subvariableRange().start;
    return -1;
  }
  /** global column of each column of a problem on the variables vv */
  std::vector<int> map(const VariableVector & vv) const
  {
    std::vector<int> r;
    for(const auto & x : vv)
    {
      int c = col(*x);
      for(int i = 0; i < x->size(); ++i) r.push_back(c < 0 ? -1 : c + i);
    }
    return r;
  }
  J values()
  {
    J r = J::arr();
    for(int d = 0; d < D; ++d)
      for(size_t k = 0; k < vars.size(); ++k)
      {
        auto x = base(static_cast<int>(k), d);
        for(int i = 0; i < x->size(); ++i) r.push(mbv::fx(x->value()(i)));
      }
    return r;
  }
};

inline tvm::internal::MatrixProperties props(const std::string & p, bool constant = false)
{
  using P = tvm::internal::MatrixProperties;
  const P::Constness c(constant);
  if(p == "diag") return {P::DIAGONAL, P::Invertibility(true), c};
  if(p == "dsing") return {P::DIAGONAL, c};
  if(p == "pd") return {P::DIAGONAL, P::POSITIVE_DEFINITE, c};
  if(p == "nd") return {P::DIAGONAL, P::NEGATIVE_DEFINITE, c};
  if(p == "id") return {P::IDENTITY};
  if(p == "mid") return {P::MINUS_IDENTITY};
  if(p == "mult") return {P::MULTIPLE_OF_IDENTITY, P::Invertibility(true), c};
  if(p == "inv") return {P::GENERAL, P::Invertibility(true), c};
  return {c};
}

inline constraint::Type ctype(const std::string & s)
{
  if(s == "eq") return constraint::Type::EQUAL;
  if(s == "ge") return constraint::Type::GREATER_THAN;
  if(s == "le") return constraint::Type::LOWER_THAN;
  return constraint::Type::DOUBLE_SIDED;
}

struct TaskDef
{
  std::shared_ptr<function::BasicLinearFunction> f;
  std::shared_ptr<TaskWithRequirements> tr;
  std::vector<VariablePtr> x;
};

inline TaskDef makeTask(World & w, const J & t)
{
  TaskDef r;
  std::vector<VariablePtr> xs;
  for(const auto & b : t["bl"].a) xs.push_back(w.get(b["v"].n(), b["off"].n(), b["len"].n(), t["d"].n()));
  const int m = static_cast<int>(t["b"].size());
  r.f = std::make_shared<function::BasicLinearFunction>(m, xs);
  for(size_t k = 0; k < xs.size(); ++k)
    r.f->A(toMat(t["bl"][k]["M"]), *xs[k], props(t["bl"][k]["p"].s, t["bl"][k].has("cst") && t["bl"][k]["cst"].b));
  r.f->b(toVec(t["b"]));
  r.x = xs;
  auto ty = ctype(t["t"].s);
  auto mk = [&](const task_dynamics::abstract::TaskDynamics & td) {
    if(ty == constraint::Type::DOUBLE_SIDED) return Task(r.f, ty, td, toVec(t["lo"]), toVec(t["hi"]));
    return Task(r.f, ty, td, toVec(t["lo"]));
  };
  Task task = t["kp"].n() == 0 ? mk(task_dynamics::None()) : mk(task_dynamics::P(t["kp"].n()));
  requirements::SolvingRequirements sr(requirements::PriorityLevel(t["p"].n()));
  if(t["w"].n() > 0) sr.weight() = static_cast<double>(t["w"].n());
  if(t["aw"].size() > 0) sr.anisotropicWeight() = toVec(t["aw"]);
  if(t["ve"].n() > 0) sr.violationEvaluation() = t["ve"].n() == 1 ? requirements::ViolationEvaluationType::L1 : requirements::ViolationEvaluationType::LINF;
  r.tr = std::make_shared<TaskWithRequirements>(task, sr);
  return r;
}

constexpr double INFV = 1e12;
constexpr int INFI = 1000000;
constexpr int BOXSCALE = 12;
constexpr int QSCALE = 64;

/** Canonical form of what the solver received, on the global columns. */
inline J canonical(const World & w, const rec::Recorded & r)
{
  const int n = w.cols();
  auto map = w.map(r.vars);
  J out = J::obj();
  std::vector<int> present(static_cast<size_t>(n), 0);
  bool foreign = false;
  for(int c : map) { if(c < 0) foreign = true; else present[static_cast<size_t>(c)]++; }
  out.set("present", J::arrOf(present));
  out.set("bad", J(foreign || r.inconsistent || static_cast<int>(map.size()) != r.A.cols() ? 1 : 0));
  if(foreign || static_cast<int>(map.size()) != r.A.cols()) return out;
  auto spread = [&](const Eigen::VectorXd & a) { Eigen::VectorXd g = Eigen::VectorXd::Zero(n); for(size_t k = 0; k < map.size(); ++k) g(map[k]) += a(static_cast<long>(k)); return g; };
  Eigen::VectorXd lo = Eigen::VectorXd::Constant(n, -1e300), hi = Eigen::VectorXd::Constant(n, 1e300);
  for(size_t k = 0; k < map.size(); ++k)
  {
    lo(map[k]) = std::max(lo(map[k]), r.xl(static_cast<long>(k)));
    hi(map[k]) = std::min(hi(map[k]), r.xu(static_cast<long>(k)));
    if(std::isnan(r.xl(static_cast<long>(k))) || std::isnan(r.xu(static_cast<long>(k)))) out.set("bad", 1);
  }
  J eqs = J::arr(), ineqs = J::arr();
  auto push = [&](J & where, const Eigen::VectorXd & a, double b) { J l = mbv::vec(a); l.push(mbv::fx(b)); where.push(l); };
  for(long i = 0; i < r.C.rows(); ++i)
  {
    Eigen::VectorXd a = spread(r.C.row(i).transpose());
    long nz = 0, last = 0;
    for(long k = 0; k < n; ++k) if(!(a(k) == 0)) { ++nz; last = k; }
    double l = r.l(i), u = r.u(i);
    if(nz == 1)
    {
      double x = l / a(last), y = u / a(last);
      lo(last) = std::max(lo(last), std::min(x, y));
      hi(last) = std::min(hi(last), std::max(x, y));
    }
    else if(l == u)
    {
      if(nz == 0 && l == 0) continue;
      double s = 1;
      for(long k = 0; k < n; ++k) if(a(k) != 0) { s = a(k) > 0 ? 1 : -1; break; }
      if(nz == 0 && l < 0) s = -1;
      push(eqs, s * a, s * l);
    }
    else
    {
      if(l > -INFV && !(nz == 0 && l <= 0)) push(ineqs, a, l);
      if(u < INFV && !(nz == 0 && u >= 0)) push(ineqs, -a, -u);
    }
  }
  J L = J::arr(), U = J::arr();
  for(long k = 0; k < n; ++k)
  {
    L.push(lo(k) < -INFV ? J(-INFI) : mbv::fx(lo(k), BOXSCALE));
    U.push(hi(k) > INFV ? J(INFI) : mbv::fx(hi(k), BOXSCALE));
  }
  Eigen::MatrixXd A(r.A.rows(), n);
  for(long i = 0; i < r.A.rows(); ++i) A.row(i) = spread(r.A.row(i).transpose()).transpose();
  Eigen::MatrixXd Q = A.transpose() * A;
  Eigen::VectorXd c = A.transpose() * r.b;
  out.set("lo", L).set("hi", U).set("eqs", eqs).set("ineqs", ineqs).set("Q", mbv::mat(Q, QSCALE)).set("c", mbv::vec(c, QSCALE)).set("k", mbv::fx(r.b.squaredNorm(), QSCALE));
  return out;
}

/** Same for a hierarchical solver: level 0 as a feasible set, the other ones row by row. */
inline J canonicalH(const World & w, const rec::RecordedH & r)
{
  rec::Recorded z;
  z.vars = r.vars;
  z.xl = r.xl;
  z.xu = r.xu;
  z.inconsistent = r.inconsistent;
  const long n = r.xl.size();
  const bool l0 = !r.lvl.empty();
  z.C = l0 ? r.lvl[0].C : Eigen::MatrixXd(0, n);
  z.l = l0 ? r.lvl[0].l : Eigen::VectorXd(0);
  z.u = l0 ? r.lvl[0].u : Eigen::VectorXd(0);
  z.A.resize(0, n);
  z.b.resize(0);
  J out = canonical(w, z);
  J lv = J::arr();
  if(out["bad"].n()) return out.set("lvl", lv);
  auto map = w.map(r.vars);
  const int N = w.cols();
  for(size_t k = 1; k < r.lvl.size(); ++k)
  {
    const auto & l = r.lvl[k];
    if(l.C.rows() == 0) continue;
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(N, N);
    Eigen::VectorXd c = Eigen::VectorXd::Zero(N);
    J ineqs = J::arr();
    for(long i = 0; i < l.C.rows(); ++i)
    {
      Eigen::VectorXd a = Eigen::VectorXd::Zero(N);
      for(size_t j = 0; j < map.size(); ++j) a(map[j]) += l.C(i, static_cast<long>(j));
      if(l.l(i) == l.u(i)) { A += a * a.transpose(); c += a * l.l(i); continue; }
      auto push = [&](const Eigen::VectorXd & x, double b) { J q = mbv::vec(x); q.push(mbv::fx(b)); ineqs.push(q); };
      if(l.l(i) > -INFV) push(a, l.l(i));
      if(l.u(i) < INFV) push(-a, -l.u(i));
    }
    J o = J::obj();
    o.set("ineqs", ineqs).set("Q", mbv::mat(A, QSCALE)).set("c", mbv::vec(c, QSCALE));
    lv.push(o);
  }
  return out.set("lvl", lv);
}
} // namespace lsp
