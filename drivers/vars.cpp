// Replays command sequences on variables: creation, derivation, primitives, sub-variables, copies, values.
#include "mbv.h"
#include <tvm/Variable.h>
#include <tvm/Space.h>
using mbv::J;
using namespace tvm;

static Space atom(const std::string & a)
{
  if(a == "E1") return Space(1);
  if(a == "E2") return Space(2);
  if(a == "SO3") return Space(Space::Type::SO3);
  if(a == "SE3") return Space(Space::Type::SE3);
  return Space(1, 2, 3);
}
static Space prod(const std::vector<std::string> & a, size_t lo, size_t hi)
{
  Space s(0);
  for(size_t k = lo; k < hi; ++k) s = k < a.size() ? s * atom(a[k]) : s * Space(1);
  return s;
}
struct World : mbv::Sut
{
  struct H { VariablePtr v; std::vector<std::string> base; size_t lo = 0, hi = 0; };
  std::map<int, H> h;
  int names = 0;
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const int s = c["s"].n(), k = c["h"].n(), n = c["n"].n(), m = c["m"].n();
    const J ok = J::obj().set("ok", 1);
    if(op == "nop") return ok;
    if(op == "new")
    {
      H r;
      for(auto & a : c["x"].a) r.base.push_back(a.s);
      r.hi = r.base.size();
      r.v = prod(r.base, 0, r.hi).createVariable("v" + std::to_string(++names));
      h[s] = r;
      return ok;
    }
    if(op == "release") { h.erase(s); return ok; }
    H & o = h.at(k);
    if(op == "dot") { H r = o; r.v = dot(o.v, n); h[s] = r; return ok; }
    if(op == "prim")
    {
      H r = o;
      const Variable & v = *o.v;
      r.v = n == 1 ? v.primitive() : n == 2 ? v.primitive<2>() : v.primitive<3>();
      h[s] = r;
      return ok;
    }
    if(op == "base") { H r = o; r.v = o.v->basePrimitive(); h[s] = r; return ok; }
    if(op == "super") { H r = o; r.v = o.v->superVariable(); r.lo = 0; r.hi = r.base.size(); h[s] = r; return ok; }
    if(op == "self") { H r = o; r.v = o.v->shared_from_this(); h[s] = r; return ok; }
    if(op == "sub")
    {
      H r = o;
      r.lo = o.lo + static_cast<size_t>(n) - 1;
      r.hi = o.lo + static_cast<size_t>(m) - 1;
      const auto in = std::vector<std::string>(o.base.begin() + static_cast<long>(o.lo), o.base.begin() + static_cast<long>(o.hi));
      const Space sp = prod(in, static_cast<size_t>(n) - 1, static_cast<size_t>(m) - 1), sh = prod(in, 0, static_cast<size_t>(n) - 1);
      if(names++ % 2) r.v = o.v->subvariable(sp, sh);
      else r.v = o.v->subvariable(sp, "s" + std::to_string(names), sh);
      h[s] = r;
      return ok;
    }
    if(op == "dup")
    {
      H r;
      r.base = std::vector<std::string>(o.base.begin() + static_cast<long>(o.lo), o.base.begin() + static_cast<long>(o.hi));
      r.hi = r.base.size();
      r.v = names++ % 2 ? o.v->duplicate() : o.v->duplicate("d" + std::to_string(names));
      h[s] = r;
      return ok;
    }
    if(op == "zero") { o.v->setZero(); return ok; }
    Eigen::VectorXd x(static_cast<long>(c["x"].size()));
    for(size_t j = 0; j < c["x"].size(); ++j) x(static_cast<long>(j)) = c["x"][j].n();
    if(op == "set") { o.v->set(x); return ok; }
    if(op == "seg") { if(x.size() == 1) o.v->set(n, x(0)); else o.v->set(n, x.size(), x); return ok; }
    std::abort();
  }
  static J range(const Range & r) { return J::arr().push(r.start).push(r.dim); }
  static J space(const Space & s) { return J::arr().push(s.size()).push(s.rSize()).push(s.tSize()).push(s.isEuclidean()); }
  J observe() override
  {
    J o = J::obj(), sl = J::arr(), vs = J::arr(), rel = J::arr();
    for(auto & [s, a] : h)
    {
      const Variable & v = *a.v;
      sl.push(s);
      vs.push(J::obj().set("size", v.size()).set("d", v.derivativeNumber()).set("val", mbv::vec(v.value())).set("sub", v.isSubvariable()).set("sup", v.isSuperVariable())
                .set("base", v.isBasePrimitive()).set("rg", range(v.subvariableRange())).set("trg", range(v.tSubvariableRange())).set("sp", space(v.space()))
                .set("sh", space(v.spaceShift())).set("eu", v.isEuclidean()));
      J l = J::arr();
      for(auto & [t, b] : h)
      {
        const Variable & w = *b.v;
        int m = 0;
        if(a.v == b.v) m += 1;
        if(v == w) m += 2;
        if((v == w) == (v != w)) m += 1000;
        if(v.contains(w)) m += 4;
        if(v.intersects(w)) m += 8;
        if(v.isDerivativeOf(w)) m += 16;
        if(v.isPrimitiveOf(w)) m += 32;
        if(v.isSuperVariableOf(w)) m += 64;
        l.push(m);
      }
      rel.push(l);
    }
    return o.set("sl", sl).set("vs", vs).set("rel", rel);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<World>(); }); }
