// Replays tasks with all dynamics, and the linear constraints built for them.
#include "mbv.h"
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/graph.h>
using mbv::J;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace td = tvm::task_dynamics;
using LTC = constraint::internal::LinearizedTaskConstraint;

static VectorXd V(const J & j) { VectorXd v(j.size()); for(size_t k = 0; k < j.size(); ++k) v[static_cast<long>(k)] = j[k].n(); return v; }
static MatrixXd M(const J & j)
{
  MatrixXd m(j.size(), j.size() ? j[0].size() : 0);
  for(size_t r = 0; r < j.size(); ++r) for(size_t c = 0; c < j[r].size(); ++c) m(static_cast<long>(r), static_cast<long>(c)) = j[r][c].n();
  return m;
}

struct Provider : graph::abstract::Node<Provider>
{
  SET_OUTPUTS(Provider, Value)
  SET_UPDATES(Provider, Value)
  Provider(const VectorXd & v) : next(v), now(VectorXd::Zero(v.size()))
  {
    registerUpdates(Update::Value, &Provider::up);
    addOutputDependency(Output::Value, Update::Value);
  }
  const VectorXd & value() const { return now; }
  void up() { now = next; }
  VectorXd next, now;
};

struct Quad : function::abstract::Function
{
  SET_UPDATES(Quad, Value, Velocity, Jac, Nor)
  Quad(const MatrixXd & A, const VectorXd & q, const VectorXd & b, VariablePtr x, VariablePtr y) : function::abstract::Function(static_cast<int>(b.size())), A(A), q(q), b(b), x(x), y(y)
  {
    registerUpdates(Update::Value, &Quad::val, Update::Velocity, &Quad::vel, Update::Jac, &Quad::jac, Update::Nor, &Quad::nor);
    addOutputDependency<Quad>(Output::Value, Update::Value);
    addOutputDependency<Quad>(Output::Velocity, Update::Velocity);
    addOutputDependency<Quad>(Output::Jacobian, Update::Jac);
    addOutputDependency<Quad>(Output::NormalAcceleration, Update::Nor);
    addVariable(x, false);
    addVariable(y, false);
    value_.setConstant(77777); velocity_.setConstant(77777); normalAcceleration_.setConstant(77777);
  }
  void val() { value_ = A.leftCols(2) * x->value() + A.col(2) * y->value()[0] + q * x->value()[0] * x->value()[1] + b; }
  void vel()
  {
    auto dx = dot(x)->value();
    velocity_ = A.leftCols(2) * dx + A.col(2) * dot(y)->value()[0] + q * (dx[0] * x->value()[1] + dx[1] * x->value()[0]);
  }
  void jac()
  {
    MatrixXd j = A.leftCols(2);
    j.col(0) += q * x->value()[1];
    j.col(1) += q * x->value()[0];
    jacobian_[x.get()] = j;
    jacobian_[y.get()] = A.col(2);
  }
  void nor() { normalAcceleration_ = 2 * q * dot(x)->value()[0] * dot(x)->value()[1]; }
  MatrixXd A;
  VectorXd q, b;
  VariablePtr x, y;
};

struct Dyn
{
  std::unique_ptr<td::abstract::TaskDynamics> td;
  std::function<void(td::abstract::TaskDynamicsImpl &, const VectorXd &, const VectorXd &)> lim;
};

struct S : mbv::Sut
{
  J c;
  std::vector<VectorXd> val = std::vector<VectorXd>(3, VectorXd::Zero(3)); // x, dx, ddx
  VectorXd ffv = VectorXd::Zero(3);
  double zv = 0;
  VariablePtr w, x, y, z;
  std::shared_ptr<Quad> quad;
  std::shared_ptr<function::BasicLinearFunction> lin;
  FunctionPtr f;
  std::shared_ptr<Provider> prov;
  std::unique_ptr<Task> task;
  std::shared_ptr<LTC> ltc;
  std::unique_ptr<graph::CallGraph> g;
  decltype(Dyn::lim) lim;
  int order = 0;

  void push(VariablePtr x_, VariablePtr y_, VariablePtr z_)
  {
    for(int k = 0; k < 3; ++k)
    {
      (k ? dot(x_, k) : x_)->set(val[static_cast<size_t>(k)].head(2));
      (k ? dot(y_, k) : y_)->set(val[static_cast<size_t>(k)].tail(1));
    }
    z_->set(VectorXd::Constant(1, zv));
  }
  // wraps a dynamics
  template<typename CL, typename... Args>
  static Dyn clamp(const J & d, Args &&... args)
  {
    Dyn r;
    VectorXd lo = V(d["lo"]), hi = V(d["hi"]);
    if(d["cf"].is("s")) r.td = std::make_unique<CL>(hi[0], std::forward<Args>(args)...);
    else if(d["cf"].is("p")) r.td = std::make_unique<CL>(std::make_pair(lo[0], hi[0]), std::forward<Args>(args)...);
    else if(d["cf"].is("v")) r.td = std::make_unique<CL>(VectorConstRef(hi), std::forward<Args>(args)...);
    else r.td = std::make_unique<CL>(std::pair<VectorConstRef, VectorConstRef>{lo, hi}, std::forward<Args>(args)...);
    return r;
  }
  template<typename CL>
  static void setLim(td::abstract::TaskDynamicsImpl & t, const VectorXd & lo, const VectorXd & hi)
  {
    auto & i = dynamic_cast<typename CL::Impl &>(t);
    const auto & ci = i;
    i.min() = lo.head(ci.min().size());
    i.max() = hi.head(ci.max().size());
  }
  template<typename T, typename... Args>
  static Dyn wrap(const J & d, std::shared_ptr<Provider> p, Args &&... args)
  {
    Dyn r;
    auto m = &Provider::value;
    auto o = Provider::Output::Value;
    const auto & ws = d["w"];
    std::string s;
    for(auto & k : ws.a) s += k.s + ".";
    if(s == "") r.td = std::make_unique<T>(std::forward<Args>(args)...);
    else if(s == "ff.") r.td = std::make_unique<td::FeedForward<T>>(p, m, o, std::forward<Args>(args)...);
    else if(s == "cl.") { r = clamp<td::Clamped<T>>(d, std::forward<Args>(args)...); r.lim = setLim<td::Clamped<T>>; }
    else if(s == "ff.cl.")
    {
      using FF = td::FeedForward<T>;
      r = clamp<td::Clamped<FF>>(d, p, m, o, std::forward<Args>(args)...);
      r.lim = setLim<td::Clamped<FF>>;
    }
    else if(s == "cl.ff.")
    {
      using CL = td::Clamped<T>;
      using FF = td::FeedForward<CL>;
      VectorXd lo = V(d["lo"]), hi = V(d["hi"]);
      if(d["cf"].is("s")) r.td = std::make_unique<FF>(p, m, o, hi[0], std::forward<Args>(args)...);
      else if(d["cf"].is("p")) r.td = std::make_unique<FF>(p, m, o, std::make_pair(lo[0], hi[0]), std::forward<Args>(args)...);
      else if(d["cf"].is("v")) r.td = std::make_unique<FF>(p, m, o, VectorConstRef(hi), std::forward<Args>(args)...);
      else r.td = std::make_unique<FF>(p, m, o, std::pair<VectorConstRef, VectorConstRef>{lo, hi}, std::forward<Args>(args)...);
      r.lim = setLim<CL>;
    }
    return r;
  }
  template<typename F>
  static auto gain(const J & g, F fn)
  {
    if(g["k"].is("s")) return fn(static_cast<double>(g["v"].n()));
    if(g["k"].is("v")) return fn(V(g["v"]));
    return fn(M(g["v"]));
  }
  static J sq(const J & g)
  {
    J r = g;
    if(g["k"].is("s")) return J::obj().set("k", "s").set("v", g["v"].n() * g["v"].n());
    if(g["k"].is("v")) { J a = J::arr(); for(auto & e : g["v"].a) a.push(e.n() * e.n()); return J::obj().set("k", "v").set("v", a); }
    MatrixXd m = M(g["v"]);
    return J::obj().set("k", "m").set("v", mbv::mat(MatrixXd(m * m)));
  }
  Dyn dyn(const J & c_, std::shared_ptr<Provider> p, VariablePtr z_)
  {
    const J & d = c_["td"];
    const bool mir = c_["mir"].n();
    Dyn r;
    const std::string k = d["k"].s;
    if(k == "none") { r.td = std::make_unique<td::None>(); return r; }
    if(k == "const") { r.td = std::make_unique<td::Constant>(); return r; }
    if(k == "p") return gain(d["g"], [&](const auto & g_) { return wrap<td::Proportional>(d, p, g_); });
    if(k == "pd")
    {
      if(d["cd"].n()) return gain(sq(d["g"]), [&](const auto & g_) { return wrap<td::ProportionalDerivative>(d, p, g_); });
      return gain(d["g"], [&](const auto & g_) { return gain(d["h"], [&](const auto & h_) { return wrap<td::ProportionalDerivative>(d, p, g_, h_); }); });
    }
    if(k == "os") return wrap<td::OneStepToZero>(d, p, static_cast<td::Order>(d["o"].n()), 1. / d["idt"].n());
    if(k == "ref")
    {
      std::shared_ptr<function::BasicLinearFunction> ref;
      if(!d["nul"].n()) { MatrixXd R = M(d["R"]); ref = std::make_shared<function::BasicLinearFunction>(MatrixXd(R.col(0)), z_, VectorXd(R.col(1))); }
      if(!mir) return wrap<td::Reference>(d, p, static_cast<td::Order>(d["o"].n()), ref);
      return d["o"].n() == 1 ? wrap<td::ReferenceVelocity>(d, p, ref) : wrap<td::ReferenceAcceleration>(d, p, ref);
    }
    VectorXd di = V(d["di"]), ds = V(d["ds"]), xsi = V(d["xsi"]), off = V(d["off"]);
    const double big = d["big"].n(), idt = d["idt"].n();
    auto make = [&](const auto & cfg) {
      if(idt != 0) return wrap<td::VelocityDamper>(d, p, 1 / idt, cfg, big);
      return wrap<td::VelocityDamper>(d, p, cfg, big);
    };
    if(di.size() == 1 && !mir) return make(td::VelocityDamper::Config(di[0], ds[0], xsi[0], off[0]));
    if(off.isZero() && mir) return make(td::VelocityDamper::AnisotropicConfig(di, ds, xsi));
    return make(td::VelocityDamper::AnisotropicConfig(di, ds, xsi, VectorConstRef(off)));
  }
  template<constraint::Type T, typename FunT>
  void fromProto(const utils::ProtoTaskCommon<T, FunT> & p, const td::abstract::TaskDynamics & t, bool direct, std::unique_ptr<Task> & tk, std::shared_ptr<LTC> & l)
  {
    if(direct) { l = std::make_shared<LTC>(utils::ProtoTask<T>(p), t); return; }
    tk = std::make_unique<Task>(p, t);
    l = std::make_shared<LTC>(*tk);
  }
  template<typename F>
  void proto(const J & c_, std::shared_ptr<F> f_, const td::abstract::TaskDynamics & t, std::unique_ptr<Task> & tk, std::shared_ptr<LTC> & l)
  {
    using RHS = utils::internal::RHS;
    const bool s = c_["rk"].is("s"), mir = c_["mir"].n(), d = c_["ltc"].n();
    RHS a = s ? RHS(c_["r1"][0].n()) : RHS(V(c_["r1"])), b = s ? RHS(c_["r2"][0].n()) : RHS(V(c_["r2"]));
    const std::string ty = c_["ty"].s;
    if(ty == "E") { if(mir) fromProto(a == f_, t, d, tk, l); else fromProto(f_ == a, t, d, tk, l); }
    else if(ty == "L") { if(mir) fromProto(a >= f_, t, d, tk, l); else fromProto(f_ <= a, t, d, tk, l); }
    else if(ty == "G") { if(mir) fromProto(a <= f_, t, d, tk, l); else fromProto(f_ >= a, t, d, tk, l); }
    else { if(mir) fromProto(b >= f_ >= a, t, d, tk, l); else fromProto(a <= f_ <= b, t, d, tk, l); }
  }
  static constraint::Type type(const std::string & s)
  { return s == "E" ? constraint::Type::EQUAL : s == "L" ? constraint::Type::LOWER_THAN : s == "G" ? constraint::Type::GREATER_THAN : constraint::Type::DOUBLE_SIDED; }

  J make(const J & n)
  {
    VariablePtr w_, x_, y_, z_ = Space(1).createVariable("z");
    if(n["sub"].n())
    {
      w_ = Space(5).createVariable("w");
      x_ = w_->subvariable(Space(2), "x", Space(1));
      y_ = w_->subvariable(Space(1), "y", Space(4));
      for(int k = 0; k < 3; ++k) (k ? dot(w_, k) : w_)->set(VectorXd::Constant(5, 55));
    }
    else { x_ = Space(2).createVariable("x"); y_ = Space(1).createVariable("y"); }
    push(x_, y_, z_);
    MatrixXd A = M(n["A"]);
    VectorXd q = V(n["q"]), b = V(n["b"]);
    std::shared_ptr<Quad> quad_;
    std::shared_ptr<function::BasicLinearFunction> lin_;
    FunctionPtr f_;
    if(n["lin"].n())
    {
      MatrixXd A1 = A.leftCols(2), A2 = A.col(2);
      lin_ = std::make_shared<function::BasicLinearFunction>(std::vector<MatrixConstRef>{A1, A2}, std::vector<VariablePtr>{x_, y_}, b);
      f_ = lin_;
    }
    else { quad_ = std::make_shared<Quad>(A, q, b, x_, y_); f_ = quad_; }
    const int fn = n["td"]["ffn"].n();
    auto prov_ = std::make_shared<Provider>(ffv.head(fn));
    Dyn d = dyn(n, prov_, z_);
    std::unique_ptr<Task> tk;
    std::shared_ptr<LTC> l;
    const auto ty = type(n["ty"].s);
    const std::string how = n["how"].s, rk = n["rk"].s;
    if(how == "S")
    {
      if(rk == "n") tk = std::make_unique<Task>(f_, ty, *d.td);
      else if(rk == "s") tk = std::make_unique<Task>(f_, ty, *d.td, static_cast<double>(n["r1"][0].n()));
      else tk = std::make_unique<Task>(f_, ty, *d.td, V(n["r1"]));
    }
    else if(how == "D")
    {
      if(rk == "s") tk = std::make_unique<Task>(f_, ty, *d.td, static_cast<double>(n["r1"][0].n()), static_cast<double>(n["r2"][0].n()));
      else tk = std::make_unique<Task>(f_, ty, *d.td, V(n["r1"]), V(n["r2"]));
    }
    else if(quad_) proto(n, quad_, *d.td, tk, l);
    else proto(n, lin_, *d.td, tk, l);
    if(!l) l = std::make_shared<LTC>(*tk);
    const int ord = static_cast<int>(d.td->order());
    if(tk && (static_cast<int>(tk->taskDynamics()->order()) != ord || tk->function() != f_ || tk->type() != ty)) return J::obj().set("bad", 1);
    using CO = constraint::abstract::Constraint::Output;
    using FO = tvm::internal::FirstOrderProvider::Output;
    std::unique_ptr<graph::CallGraph> g_;
    const bool full = n["full"].n() == 1;
    auto build = [&](auto... os) { g_ = full ? utils::generateUpdateGraph(l, os..., FO::Jacobian, FO::Value) : utils::generateUpdateGraph(l, os...); };
    if(ty == constraint::Type::EQUAL) build(CO::E);
    else if(ty == constraint::Type::LOWER_THAN) build(CO::U);
    else if(ty == constraint::Type::GREATER_THAN) build(CO::L);
    else if(n["full"].n() == 2) build(CO::U);
    else if(n["full"].n() == 3) build(CO::L);
    else build(CO::L, CO::U);
    // done
    g.reset(); ltc.reset(); task.reset(); f.reset(); quad.reset(); lin.reset();
    w = w_; x = x_; y = y_; z = z_; quad = quad_; lin = lin_; f = f_; prov = prov_; task = std::move(tk); ltc = l; g = std::move(g_); lim = d.lim; order = ord; c = n;
    return J::obj().set("ok", 1).set("order", ord);
  }
  TaskDynamicsPtr side(int sd) { return sd == 1 ? task->taskDynamics() : task->secondBoundTaskDynamics(); }
  template<typename T> bool cast(int sd)
  {
    auto p = sd == 1 ? task->taskDynamics<T>() : task->secondBoundTaskDynamics<T>();
    return p == side(sd);
  }
  J step(const J & n) override
  {
    const std::string op = n["op"].s;
    const J ok = J::obj().set("ok", 1), bad = J::obj().set("bad", 1);
    if(op == "make") return make(n);
    if(op == "x" || op == "dx" || op == "ddx") { val[op.size() - 1] = V(n["v"]); if(x) push(x, y, z); }
    else if(op == "z") { zv = n["v"].n(); if(x) push(x, y, z); }
    else if(op == "ff") { ffv = V(n["v"]); if(prov) prov->next = ffv.head(prov->next.size()); }
    else if(op == "b") lin->b(V(n["v"]));
    else if(op == "A") { MatrixXd A = M(n["v"]); lin->A(A.leftCols(2), *x); lin->A(A.col(2), *y); }
    else if(op == "run") g->execute();
    else if(op == "lim") lim(*side(n["sd"].n()), V(n["lo"]), V(n["hi"]));
    else if(op == "gain")
    {
      auto t = side(n["sd"].n());
      if(c["td"]["k"].is("p")) gain(n["g"], [&](const auto & g_) { dynamic_cast<td::P::Impl &>(*t).gain(g_); });
      else if(n["cd"].n()) gain(sq(n["g"]), [&](const auto & g_) { dynamic_cast<td::PD::Impl &>(*t).gains(g_); });
      else gain(n["g"], [&](const auto & g_) { gain(n["h"], [&](const auto & h_) { dynamic_cast<td::PD::Impl &>(*t).gains(g_, h_); }); });
    }
    else if(op == "cast")
    {
      const std::string k = n["k"].s;
      const int sd = n["sd"].n();
      bool r = k == "none" ? cast<td::None>(sd) : k == "const" ? cast<td::Constant>(sd) : k == "p" ? cast<td::Proportional>(sd) : k == "pd" ? cast<td::ProportionalDerivative>(sd)
             : k == "os" ? cast<td::OneStepToZero>(sd) : k == "ref" ? cast<td::Reference>(sd) : cast<td::VelocityDamper>(sd);
      if(!r) return bad;
    }
    return ok;
  }
  template<typename Vec> static J th(const Vec & v) { J r = J::arr(); for(long k = 0; k < v.size(); ++k) r.push(mbv::rnd(v[k], 1000)); return r; }
  J observe() override
  {
    J r = J::obj();
    if(!ltc) return r;
    const auto ty = ltc->type();
    r.set("ty", ty == constraint::Type::EQUAL ? "E" : ty == constraint::Type::LOWER_THAN ? "L" : ty == constraint::Type::GREATER_THAN ? "G" : "D");
    r.set("rhs", ltc->rhs() == constraint::RHS::AS_GIVEN ? "G" : "?");
    J b = J::arr(), t = J::arr();
    if(ty == constraint::Type::EQUAL) b.push(th(ltc->e()));
    if(ty == constraint::Type::GREATER_THAN || ty == constraint::Type::DOUBLE_SIDED) b.push(th(ltc->l()));
    if(ty == constraint::Type::LOWER_THAN || ty == constraint::Type::DOUBLE_SIDED) b.push(th(ltc->u()));
    r.set("bnd", b);
    if(task) { t.push(th(task->taskDynamics()->value())); if(task->secondBoundTaskDynamics()) t.push(th(task->secondBoundTaskDynamics()->value())); }
    r.set("td", t);
    auto X = order ? dot(x, order) : x, Y = order ? dot(y, order) : y;
    const auto & vs = ltc->variables().variables();
    bool good = vs.size() == 2 && *vs[0] == *X && *vs[1] == *Y;
    if(good)
    {
      MatrixXd Jm(ltc->size(), 3);
      Jm << MatrixXd(ltc->jacobian(*X)), MatrixXd(ltc->jacobian(*Y));
      auto s = X->subvariable(Space(1), "s", Space(1));
      good = MatrixXd(ltc->jacobian(*s)) == MatrixXd(Jm.col(1)) || Jm.hasNaN();
      r.set("jac", mbv::mat(Jm));
      r.set("val", mbv::vec(ltc->value()));
    }
    r.set("vars", good ? 1 : 0);
    return r;
  }
};

int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<S>(); }); }
