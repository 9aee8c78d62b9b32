// Replays programs that build affine expressions and relations (generated from the specification).
#include "affine.h"
using mbv::J;
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
std::map<int, Prog> & programs() { static std::map<int, Prog> p; return p; }
static VectorXd V(const J & j) { VectorXd v(j.size()); for(size_t k = 0; k < j.size(); ++k) v[static_cast<long>(k)] = j[k].n(); return v; }
static MatrixXd M(const J & j)
{
  MatrixXd m(j.size(), j.size() ? j[0].size() : 0);
  for(size_t r = 0; r < j.size(); ++r) for(size_t c = 0; c < j[r].size(); ++c) m(static_cast<long>(r), static_cast<long>(c)) = j[r][c].n();
  return m;
}
using LTC = constraint::internal::LinearizedTaskConstraint;
struct S : mbv::Sut
{
  X x;
  std::vector<std::pair<VariablePtr, long>> base; // with the first component of each
  std::vector<VariablePtr> keep;
  Made m;
  std::shared_ptr<LTC> c;
  std::unique_ptr<graph::CallGraph> g, h;
  S()
  {
    VariablePtr a = Space(2).createVariable("x"), b = Space(3).createVariable("y"), w = Space(4).createVariable("w");
    auto sub = [&](VariablePtr v, int st, int n) { auto s = v->subvariable(Space(n), "s" + std::to_string(x.x.size()), Space(st)); x.x.push_back(s); };
    x.x = {nullptr, a, b, w};
    sub(w, 0, 2); sub(w, 1, 2); sub(w, 2, 2); sub(w, 0, 3); sub(b, 1, 2); sub(b, 0, 1);
    x.x.push_back(dot(a));
    sub(w, 2, 1); sub(a, 1, 1);
    x.x.push_back(dot(b));
    keep.push_back(b->subvariable(Space(2), "k", Space(1)));
    x.x.push_back(dot(keep.back()));
    sub(w, 1, 3);
    base = {{a, 0}, {b, 2}, {w, 5}, {dot(a), 9}, {dot(b), 11}};
    for(auto & p : base) p.first->set(VectorXd::Zero(p.first->size()));
  }
  long first(const Variable & v) const // of its components, from 1
  {
    for(auto & p : base)
      if(*v.superVariable() == *p.first) return p.second + 1 + v.subvariableRange().start;
    throw std::logic_error("unknown variable");
  }
  J props(const internal::MatrixProperties & p)
  { return J::obj().set("sh", static_cast<int>(p.shape())).set("po", static_cast<int>(p.positiveness())).set("inv", p.isInvertible() ? 1 : 0); }
  J columns(const MatrixXd & A, long f)
  {
    J r = J::arr();
    for(long k = 0; k < A.cols(); ++k) { J e = J::arr(); e.push(static_cast<int>(f + k)); e.push(mbv::vec(VectorXd(A.col(k)))); r.push(e); }
    return r;
  }
  J step(const J & q) override
  {
    const std::string op = q["op"].s;
    const J ok = J::obj().set("ok", 1);
    if(op == "val")
    {
      VectorXd v = V(q["v"]);
      for(auto & p : base) p.first->set(v.segment(p.second, p.first->size()));
      return ok;
    }
    if(op == "make")
    {
      g.reset(); h.reset(); c.reset(); m = Made();
      auto d = std::make_unique<D>();
      for(auto & e : q["M"].a) d->M.push_back(M(e));
      for(auto & e : q["V"].a) d->V.push_back(V(e));
      for(auto & e : q["S"].a) d->S.push_back(e.n());
      X y = x;
      Made n = programs().at(q["prog"].n())(*d, y);
      // the operands change, then disappear
      for(auto & e : d->M) e.setConstant(777);
      for(auto & e : d->V) e.setConstant(777);
      for(auto & e : d->S) e = 777;
      d.reset(); y.x.clear();
      m = n;
      g = utils::generateUpdateGraph(m.f, function::abstract::Function::Output::Value, function::abstract::Function::Output::Jacobian);
      if(m.task)
      {
        c = std::make_shared<LTC>(*m.task);
        using O = constraint::abstract::Constraint::Output;
        using F = internal::FirstOrderProvider::Output;
        if(m.type == 1) h = utils::generateUpdateGraph(c, O::E, F::Jacobian);
        else if(m.type == 2) h = utils::generateUpdateGraph(c, O::L, F::Jacobian);
        else if(m.type == 3) h = utils::generateUpdateGraph(c, O::U, F::Jacobian);
        else h = utils::generateUpdateGraph(c, O::L, O::U, F::Jacobian);
      }
      used = q["used"];
      return ok;
    }
    // run
    g->execute();
    J r = J::obj(), Js = J::arr(), P = J::arr(), Q = J::arr(), C = J::arr();
    for(auto & v : m.f->variables().variables())
    {
      auto A = m.f->jacobian(*v);
      const J cs = columns(MatrixXd(A), first(*v));
      for(auto & e : cs.a) Js.push(e);
      Q.push(J::obj().set("M", mbv::mat(MatrixXd(A))).set("w", props(A.properties())));
    }
    for(auto & p : used.a)
    {
      auto A = m.f->jacobian(*x.x.at(static_cast<size_t>(p.n())));
      P.push(J::obj().set("p", p.n()).set("M", mbv::mat(MatrixXd(A))).set("w", props(A.properties())));
    }
    int ty = 0;
    const VectorXd no;
    VectorXd l, u, e;
    if(m.task)
    {
      h->execute();
      const auto t = c->type();
      ty = t == constraint::Type::EQUAL ? 1 : t == constraint::Type::GREATER_THAN ? 2 : t == constraint::Type::LOWER_THAN ? 3 : 4;
      if(m.task->type() != t || ty != m.type || m.task->function() != m.f) ty = -1;
      if(ty == 1) e = c->e();
      if(ty == 2 || ty == 4) l = c->l();
      if(ty == 3 || ty == 4) u = c->u();
      for(auto & v : c->variables().variables())
      {
        const J cs = columns(MatrixXd(c->jacobian(*v)), first(*v));
        for(auto & x : cs.a) C.push(x);
      }
    }
    r.set("ty", ty).set("m", m.f->size()).set("val", mbv::vec(m.f->value())).set("b", mbv::vec(m.f->b())).set("bw", props(m.f->b().properties()));
    r.set("J", Js).set("P", P).set("Q", Q).set("C", C);
    r.set("pl", mbv::vec(m.l)).set("pu", mbv::vec(m.u)).set("pe", mbv::vec(m.e)).set("l", mbv::vec(l)).set("u", mbv::vec(u)).set("e", mbv::vec(e));
    return r;
  }
  J used;
  J observe() override
  {
    VectorXd v(14);
    for(auto & p : base) v.segment(p.second, p.first->size()) = p.first->value();
    return mbv::vec(v);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<S>(); }); }
