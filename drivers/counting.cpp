// Replays additions and removals of parts of variables on VariableCountingVector (joined, split) and RangeCounting.
#include "mbv.h"
#include <array>
#include <tvm/Variable.h>
#include <tvm/internal/RangeCounting.h>
#include <tvm/internal/VariableCountingVector.h>
#include <tvm/internal/VariableVectorPartition.h>
using mbv::J;
using namespace tvm;
using namespace tvm::internal;

static Space atom(int k, int p)
{
  if(k == 3) return Space(1);
  switch(p) { case 1: return Space(1); case 2: return Space(Space::Type::SO3); case 3: return Space(2); default: return Space(1, 2, 3); }
}
static int atoms(int k) { return k == 3 ? 3 : 4; }
static Space prod(int k, int lo, int hi) { Space s(0); for(int p = lo; p < hi; ++p) s = s * atom(k, p); return s; }

struct World : mbv::Sut
{
  VariablePtr X, Y;
  std::weak_ptr<Variable> wY;
  VariableCountingVector joined, split{true};
  RangeCounting rc[4];
  std::vector<std::array<int, 3>> lastSplit;
  bool claimed = true, quiet = true;
  int n = 0;
  std::map<const Variable *, int> key;
  World() { X = prod(1, 1, 5).createVariable("X"); key[X.get()] = 1; key[dot(X).get()] = 2; }
  VariablePtr super(int k)
  {
    if(k == 1) return X;
    if(k == 2) return dot(X);
    if(!Y) Y = wY.lock();
    if(!Y) { Y = prod(3, 1, 4).createVariable("Y"); key[Y.get()] = 3; }
    wY = Y;
    return Y;
  }
  VariablePtr part(int k, int lo, int hi)
  {
    ++n;
    auto s = super(k);
    if(lo == 1 && hi == atoms(k) + 1 && n % 2) return s;
    if(k == 2 && n % 3) return dot(X->subvariable(prod(k, lo, hi), prod(k, 1, lo)));
    return s->subvariable(prod(k, lo, hi), prod(k, 1, lo));
  }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const J ok = J::obj().set("ok", 1);
    const int k = c["k"].n(), lo = c["lo"].n(), hi = c["hi"].n();
    ++n;
    look = c["q"].n();
    if(op == "query") return ok;
    if(op == "clear") { joined.clear(); split.clear(); claimed = true; for(auto & r : rc) r = RangeCounting(); return ok; }
    if(op == "drop") { Y.reset(); return ok; }
    bool a = false, b = false, s = false;
    int exc = 0;
    if(op == "add")
    {
      auto v = part(k, lo, hi);
      if(n % 5 == 0) { joined.add(VariableVector(v)); a = rc[k].add({lo, hi - lo}); }
      else { a = joined.add(v); b = rc[k].add({lo, hi - lo}); if(a != b) return J::obj().set("ch", -1); }
      s = split.add(v);
      claimed = claimed || s;
      return J::obj().set("ch", a ? 1 : 0);
    }
    if(op == "rm")
    {
      auto v = part(k, lo, hi);
      bool vecRm = n % 5 == 0;
      try { if(vecRm) joined.remove(VariableVector(v)); else a = joined.remove(*v); } catch(const std::exception &) { exc += 1; }
      try { b = rc[k].remove({lo, hi - lo}); } catch(const std::exception &) { exc += 2; }
      try { s = split.remove(*v); claimed = claimed || s; } catch(const std::exception &) { exc += 4; }
      if(exc == 7) return J::obj().set("exc", 1);
      if(exc) return J::obj().set("exc", exc * 10);
      if(!vecRm && a != b) return J::obj().set("ch", -1);
      return J::obj().set("ch", b ? 1 : 0);
    }
    if(op == "iter")
    {
      std::vector<VariablePtr> l;
      bool disjoint = true;
      for(auto & w : c["ws"].a)
      {
        auto v = part(w[0].n(), w[1].n(), w[2].n());
        for(auto & u : l) if(u->intersects(*v) || v->size() == 0 || u->size() == 0) disjoint = false;
        l.push_back(v);
      }
      J a = J::arr();
      auto push = [&](const VariablePtr & v) { const Range r = v->subvariableRange(); a.push(J::arr().push(k_(v)).push(r.start).push(r.dim)); };
      if(disjoint && n % 2)
      {
        const VariableVector vv(l);
        for(const auto & v : VariableVectorPartition(vv, split)) push(v);
      }
      else
        for(const auto & v : VariableVectorPartition(l, split)) push(v);
      it = a;
      return ok;
    }
    if(op == "rmv")
    {
      const int k2 = c["k2"].n(), lo2 = c["lo2"].n(), hi2 = c["hi2"].n();
      const VariableVector v(part(k, lo, hi), part(k2, lo2, hi2));
      try { joined.remove(v); } catch(const std::exception &) { exc += 1; }
      RangeCounting r1 = rc[k], r2 = rc[k2];
      try { r1.remove({lo, hi - lo}); r2.remove({lo2, hi2 - lo2}); rc[k] = r1; rc[k2] = r2; } catch(const std::exception &) { exc += 2; }
      try { split.remove(v); claimed = true; } catch(const std::exception &) { exc += 4; }
      if(exc == 0) return ok;
      return J::obj().set("exc", exc == 7 ? 1 : exc * 10);
    }
    std::abort();
  }
  int look = 0;
  J it = J::arr();
  int k_(const VariablePtr & v) { auto it = key.find(v->superVariable().get()); return it == key.end() ? 0 : it->second; }
  J list(const VariableCountingVector & c, std::vector<std::array<int, 3>> * keep = nullptr)
  {
    J l = J::arr();
    for(const auto & v : c.variables())
    {
      const Range r = v->subvariableRange();
      l.push(J::arr().push(k_(v)).push(r.start).push(r.dim));
      if(keep) keep->push_back({k_(v), r.start, r.dim});
    }
    return l;
  }
  J ranges(bool s)
  {
    J a = J::arr();
    for(int j = 1; j <= 3; ++j) { J l = J::arr(); for(const auto & r : rc[j].ranges(s)) l.push(J::arr().push(r.start).push(r.dim)); a.push(l); }
    return a;
  }
  J observe() override
  {
    J o = J::obj();
    if(look == 1) { o.set("rj", ranges(false)); o.set("rs", ranges(true)); }
    if(look == 2) { o.set("rs", ranges(true)); o.set("rj", ranges(false)); }
    if(look == 3) o.set("rj", ranges(false));
    if(look)
    {
      std::vector<std::array<int, 3>> now;
      o.set("joined", list(joined)).set("split", list(split, &now));
      J f = J::arr();
      for(auto b : joined.simple()) f.push(b != 0);
      o.set("simple", f);
      if(!claimed && now != lastSplit) quiet = false;
      lastSplit = now;
      claimed = false;
    }
    J m = J::arr(), e = J::arr();
    for(int j = 1; j <= 3; ++j) { m.push(rc[j].maxCount()); e.push(rc[j].empty()); }
    const bool d = joined.isDisjointUnion();
    o.set("max", m).set("empty", e).set("disj", d == split.isDisjointUnion() && d).set("quiet", quiet).set("it", it);
    return o;
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<World>(); }); }
