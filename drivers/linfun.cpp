// Replays linear functions, and their evaluation through UpdatelessFunction.
#include "mbv.h"
#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/utils/UpdatelessFunction.h>
#include <tvm/utils/graph.h>
using mbv::J;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using BLF = function::BasicLinearFunction;

static VectorXd V(const J & j) { VectorXd v(j.size()); for(size_t k = 0; k < j.size(); ++k) v[static_cast<long>(k)] = j[k].n(); return v; }
static MatrixXd M(const J & j)
{
  MatrixXd m(j.size(), j.size() ? j[0].size() : 0);
  for(size_t r = 0; r < j.size(); ++r) for(size_t c = 0; c < j[r].size(); ++c) m(static_cast<long>(r), static_cast<long>(c)) = j[r][c].n();
  return m;
}
struct Fn
{
  std::shared_ptr<BLF> f;
  std::unique_ptr<graph::CallGraph> g;
  std::unique_ptr<utils::UpdatelessFunction> u;
};
struct S : mbv::Sut
{
  std::vector<VariablePtr> base, cat{nullptr};
  std::vector<std::vector<VariablePtr>> der; // base, order
  std::vector<Fn> fs = std::vector<Fn>(3);
  S()
  {
    base.push_back(Space(2).createVariable("x"));
    base.push_back(Space(3).createVariable("y"));
    base.push_back(Space(4).createVariable("w"));
    base.push_back(Space(Space::Type::SO3).createVariable("q"));
    for(auto & b : base) der.push_back({b, dot(b), dot(b, 2)});
    base[3]->set(Eigen::Vector4d(1, 0, 0, 0));
    for(size_t b = 0; b < 4; ++b) for(size_t k = 0; k < 3; ++k) if(b < 3 || k > 0) der[b][k]->set(VectorXd::Zero(der[b][k]->size()));
    auto add = [&](size_t b, int st, int n, size_t k) {
      auto v = der[b][k];
      if(st == 0 && n == v->size()) cat.push_back(v);
      else if(b == 3) cat.push_back(v->subvariable(Space(n), "s" + std::to_string(cat.size()), Space(st)));
      else { auto s = base[b]->subvariable(Space(n), "s" + std::to_string(cat.size()), Space(st)); keep.push_back(s); cat.push_back(k ? dot(s, static_cast<int>(k)) : s); }
    };
    add(0, 0, 2, 0); add(1, 0, 3, 0); add(2, 0, 4, 0);
    add(2, 0, 2, 0); add(2, 1, 2, 0); add(2, 2, 2, 0); add(2, 0, 3, 0);
    add(1, 1, 2, 0); add(1, 0, 1, 0);
    add(0, 0, 2, 1); add(2, 1, 2, 1); add(3, 0, 3, 1); add(3, 0, 4, 0);
    add(3, 1, 2, 1); add(0, 1, 1, 0); add(2, 0, 2, 1);
  }
  std::vector<VariablePtr> keep;
  VariablePtr var(const J & p) { return cat.at(static_cast<size_t>(p.n())); }
  J make(const J & c)
  {
    Fn n;
    const std::string how = c["how"].s;
    std::vector<VariablePtr> xs;
    for(auto & p : c["xs"].a) xs.push_back(var(p));
    if(how == "id") n.f = std::make_shared<function::IdentityFunction>(xs[0]);
    else if(how == "new")
    {
      if(xs.size() == 1 && c["one"].n()) n.f = std::make_shared<BLF>(c["m"].n(), xs[0]);
      else n.f = std::make_shared<BLF>(c["m"].n(), xs);
    }
    else
    {
      std::vector<MatrixXd> ms;
      for(auto & a : c["As"].a) ms.push_back(M(a));
      std::vector<MatrixConstRef> rs(ms.begin(), ms.end());
      VectorXd b = V(c["b"]);
      const bool one = c["one"].n() && xs.size() == 1 && rs.size() == 1;
      if(how == "A") n.f = one ? std::make_shared<BLF>(rs[0], xs[0]) : std::make_shared<BLF>(rs, xs);
      else n.f = one ? std::make_shared<BLF>(rs[0], xs[0], b) : std::make_shared<BLF>(rs, xs, b);
    }
    using O = function::abstract::Function::Output;
    const int gr = c["gr"].n();
    if(gr == 1) n.g = utils::generateUpdateGraph(n.f, O::Value);
    else if(gr == 2) n.g = utils::generateUpdateGraph(n.f, O::Velocity);
    else n.g = utils::generateUpdateGraph(n.f, O::Value, O::Velocity);
    fs[static_cast<size_t>(c["f"].n())] = std::move(n);
    return J::obj().set("ok", 1);
  }
  J ul(const J & c)
  {
    Fn & n = fs[static_cast<size_t>(c["f"].n())];
    if(!n.u) n.u = std::make_unique<utils::UpdatelessFunction>(n.f);
    auto & u = *n.u;
    const std::string form = c["form"].s, what = c["what"].s;
    std::vector<VectorXd> x, d;
    for(auto & e : c["xs"].a) x.push_back(V(e));
    for(auto & e : c["ds"].a) d.push_back(V(e));
    J r = J::obj();
    auto val = [&](auto &&... a) {
      if(what == "value") r.set("u", mbv::vec(u.value(a...)));
      else r.set("u", mbv::mat(MatrixXd(u.jacobian(*var(c["p"]), a...))));
    };
    auto vel = [&](auto &&... a) {
      if(what == "vel") r.set("u", mbv::vec(u.velocity(a...)));
      else r.set("u", mbv::vec(u.normalAcceleration(a...)));
    };
    const bool first = what == "value" || what == "jac";
    if(form == "by")
    {
      auto & a = *var(c["ps"][0]);
      if(x.size() == 1) { if(first) val(a, x[0]); else vel(a, x[0], d[0]); }
      else { auto & b = *var(c["ps"][1]); if(first) val(a, x[0], b, x[1]); else vel(a, x[0], d[0], b, x[1], d[1]); }
    }
    else if(form == "cat" && x.size() > 1)
    {
      long sz = c["bad"].n();
      for(auto & e : x) sz += e.size();
      VectorXd X = VectorXd::Zero(sz), D = VectorXd::Zero(sz);
      long k = 0;
      for(size_t t = 0; t < x.size(); ++t) { X.segment(k, x[t].size()) = x[t]; D.segment(k, x[t].size()) = d[t]; k += x[t].size(); }
      if(first) val(X); else vel(X, D);
    }
    else if(x.size() == 1)
    {
      if(first) val(x[0]);
      else vel(x[0], d[0]);
    }
    else if(x.size() == 2) { if(first) val(x[0], x[1]); else vel(x[0], d[0], x[1], d[1]); }
    else if(x.size() == 3) { if(first) val(x[0], x[1], x[2]); else vel(x[0], d[0], x[1], d[1], x[2], d[2]); }
    return r;
  }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const J ok = J::obj().set("ok", 1);
    if(op == "make") return make(c);
    if(op == "val") { der[static_cast<size_t>(c["b"].n() - 1)][static_cast<size_t>(c["k"].n())]->set(V(c["v"])); return ok; }
    if(op == "ul") return ul(c);
    auto & f = fs[static_cast<size_t>(c["f"].n())].f;
    if(op == "A") { f->A(M(c["A"]), *var(c["p"])); return ok; }
    if(op == "A1") { f->A(M(c["A"])); return ok; }
    if(op == "b") { f->b(V(c["v"])); return ok; }
    if(op == "lin") { return J::obj().set("ok", f->linearIn(*var(c["p"])) ? 1 : 0); }
    if(op == "jac") return J::obj().set("J", mbv::mat(MatrixXd(f->jacobian(*var(c["p"])))));
    // run
    fs[static_cast<size_t>(c["f"].n())].g->execute();
    J r = J::obj(), vs = J::arr(), Js = J::arr();
    bool zero = f->normalAcceleration().size() == f->size() && f->normalAcceleration().isZero(0);
    for(auto & v : f->variables().variables())
    {
      int id = 0;
      for(size_t k = 1; k < cat.size(); ++k) if(*cat[k] == *v) id = static_cast<int>(k);
      vs.push(id);
      Js.push(mbv::mat(MatrixXd(f->jacobian(*v))));
      MatrixXd jd = f->JDot(*v);
      zero = zero && jd.rows() == f->size() && jd.cols() == v->size() && jd.isZero(0);
    }
    r.set("vs", vs).set("sz", f->size()).set("val", mbv::vec(f->value())).set("vel", mbv::vec(f->velocity())).set("b", mbv::vec(f->b())).set("J", Js).set("zero", zero ? 1 : 0);
    return r;
  }
  J observe() override
  {
    J r = J::arr();
    for(size_t b = 0; b < 4; ++b)
    {
      J a = J::arr();
      for(size_t k = 0; k < 3; ++k) a.push(b == 3 && k == 0 ? mbv::vec(VectorXd::Zero(3).eval()) : mbv::vec(der[b][k]->value()));
      r.push(a);
    }
    return r;
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<S>(); }); }
