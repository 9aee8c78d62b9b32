// Replays command sequences on vectors of variables.
#include "mbv.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
using mbv::J;
using namespace tvm;
struct World : mbv::Sut
{
  std::vector<VariablePtr> p;
  std::unique_ptr<VariableVector> v[4];
  int q = 0;
  World()
  {
    const Space so3(Space::Type::SO3), e1(1), z(0);
    VariablePtr x = Space(3).createVariable("x"), y = (so3 * e1).createVariable("y"), ze = z.createVariable("z"), w = e1.createVariable("w");
    p = {nullptr, x, x->subvariable(Space(2)), x->subvariable(Space(2), Space(1)), x->subvariable(Space(2), "x'"), y, y->subvariable(e1, so3), dot(y), nullptr, dot(x), ze, w, dot(y)->subvariable(so3), y->subvariable(z, so3)};
    p[8] = dot(p[6]);
    for(int k = 1; k <= 3; ++k) v[k] = std::make_unique<VariableVector>();
  }
  VariablePtr at(const J & j) { return p[static_cast<size_t>(j.n())]; }
  static Eigen::VectorXd ev(const J & c) { Eigen::VectorXd x(static_cast<long>(c.size())); for(size_t j = 0; j < c.size(); ++j) x(static_cast<long>(j)) = c[j].n(); return x; }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const J ok = J::obj().set("ok", 1);
    q = c["q"].n();
    VariableVector & a = *v[c["v"].n()];
    auto b = [&]() -> VariableVector & { return *v[c["w"].n()]; };
    if(op == "nop") return ok;
    if(op == "add") return J::obj().set("ok", a.add(at(c["p"])) ? 1 : 0);
    if(op == "addl") { std::vector<VariablePtr> l; for(auto & k : c["x"].a) l.push_back(at(k)); a.add(l); return ok; }
    if(op == "addv") { a.add(b()); return ok; }
    if(op == "addi") return J::obj().set("ok", c["w"].n() == 1 ? a.addAndGetIndex(at(c["p"]), true) : a.addAndGetIndex(at(c["p"])));
    if(op == "rm") return J::obj().set("ok", a.remove(*at(c["p"])) ? 1 : 0);
    if(op == "rmi") { a.remove(c["w"].n()); return ok; }
    if(op == "clear") { a.clear(); return ok; }
    if(op == "copy") { v[c["v"].n()] = std::make_unique<VariableVector>(static_cast<const VariableVector &>(b())); return ok; }
    if(op == "assign") { a = b(); return ok; }
    if(op == "movec") { v[c["v"].n()] = std::make_unique<VariableVector>(std::move(b())); return ok; }
    if(op == "move") { a = std::move(b()); return ok; }
    if(op == "dot") { a = dot(b()); return ok; }
    if(op == "set") { a.set(ev(c["x"])); return ok; }
    if(op == "zero") { a.setZero(); return ok; }
    if(op == "setp") { at(c["p"])->set(ev(c["x"])); return ok; }
    std::abort();
  }
  J observe() override
  {
    J o = J::arr();
    for(int k = 1; k <= 3; ++k)
    {
      const VariableVector & a = *v[k];
      J m = J::arr(), has = J::arr(), meets = J::arr(), idx = J::arr();
      int n = 0;
      for(const auto & x : a)
      {
        size_t j = 1;
        while(j < p.size() && p[j] != x) ++j;
        m.push(a[n++] == x ? j : 99);
      }
      auto mapping = [&](bool direct) {
        J l = J::arr();
        for(size_t j = 1; j < p.size(); ++j)
        {
          Range r(-1, 1);
          r.dim = -1;
          try { r = direct ? a.getMappingOf(*p[j]) : p[j]->getMappingIn(a); } catch(const std::exception &) {}
          l.push(J::arr().push(r.start).push(r.dim));
        }
        return l;
      };
      for(size_t j = 1; j < p.size(); ++j) { has.push(a.contains(*p[j]) ? 1 : 0); meets.push(a.intersects(*p[j]) ? 1 : 0); idx.push(a.indexOf(*p[j])); }
      J e = J::obj().set("m", m).set("n", a.numberOfVariables()).set("size", a.totalSize()).set("val", mbv::vec(a.value())).set("has", has).set("meets", meets).set("idx", idx);
      if(q == 1 || q == 3) e.set("map", mapping(false));
      if(q == 2 || q == 3) e.set("map2", mapping(true));
      o.push(e);
    }
    return o;
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<World>(); }); }
