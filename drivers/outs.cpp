// Replays enabling and disabling of outputs on a hierarchy of node classes.
#include "mbv.h"
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
using mbv::J;
using namespace tvm::graph::abstract;

struct A : Node<A> { SET_OUTPUTS(A, O1, O2, O3) };
struct B : A { SET_OUTPUTS(B, O4, O5) DISABLE_OUTPUTS(A::Output::O2) };
struct S : OutputSelector<B> { S() { disableOutput(A::Output::O2, B::Output::O4); } };
struct U : OutputSelector<U, S> { SET_OUTPUTS(U, O6, O7) U() { disableOutput(U::Output::O7); } };
struct V : U { CLEAR_DISABLED_OUTPUTS() };
struct W : U { DISABLE_OUTPUTS(A::Output::O1, U::Output::O6) };
struct Crit { std::vector<bool> rejected = std::vector<bool>(8, false); };
struct C0 : A, Crit { bool isOutputCustomEnabled(int e) const override { return !rejected[static_cast<size_t>(e)]; } };
struct C : OutputSelector<C0> {};
struct D : S, Crit { bool isOutputCustomEnabled(int e) const override { return S::isOutputCustomEnabled(e) && !rejected[static_cast<size_t>(e)]; } };
struct E : U {};
struct Consumer : Node<Consumer>
{
  SET_OUTPUTS(Consumer, X)
  SET_UPDATES(Consumer, UP)
  Consumer() { registerUpdates(Update::UP, &Consumer::up); }
  void up() {}
  template<typename T, typename... Es> void dep(std::shared_ptr<T> s, int how, Es... es)
  {
    if(how == 0) addInput(s, es...);
    else if(how == 1) addInput(*s, es...);
    else if(how == 2) addInputDependency(Update::UP, s, es...);
    else addInputDependency(Update::UP, *s, es...);
  }
};
template<int K> struct Outs_;
using L1 = OutputSelector<B>;
using L2 = OutputSelector<U, S>;
using LC = OutputSelector<C0>;
template<typename T> constexpr int nOut() { return static_cast<int>(T::OutputSize); }
// calls f with the enumerator of output p of class T
template<typename T, typename F> void en(int p, F f)
{
  if(p <= 3) f(static_cast<A::Output_>(p - 1));
  else if constexpr(nOut<T>() > 3) { if(p <= 5) f(static_cast<B::Output_>(p - 1));
  else if constexpr(nOut<T>() > 5) f(static_cast<U::Output_>(p - 1)); }
}
struct Any
{
  virtual ~Any() = default;
  virtual std::unique_ptr<Any> copy() = 0;
  virtual void set(bool on, int layer, const J & ps) = 0;
  virtual void lock(bool l) = 0;
  virtual bool locked() = 0;
  virtual void rej(int p) = 0;
  virtual void dep(Consumer & c, int how, const J & ps) = 0;
  virtual J on() = 0;
  virtual Outputs * ptr() = 0;
};
template<typename K> struct Pub : K
{
  template<typename L, typename... Es> void set(bool on, Es... es) { if(on) this->L::enableOutput(es...); else this->L::disableOutput(es...); }
};
template<typename K> struct Obj : Any
{
  std::shared_ptr<Pub<K>> k;
  Obj() : k(std::make_shared<Pub<K>>()) {}
  Obj(const Obj & o) : k(std::make_shared<Pub<K>>(static_cast<const Pub<K> &>(*o.k))) {}
  std::unique_ptr<Any> copy() override { return std::make_unique<Obj>(*this); }
  static constexpr bool selects = is_output_selector<K>();
  template<typename L, typename... Es> void set_(bool on, const J & ps, size_t at, Es... es)
  {
    if constexpr(sizeof...(Es) > 0) if(at == ps.size()) { k->template set<L>(on, es...); return; }
    if constexpr(sizeof...(Es) < 3) en<K>(ps[at].n(), [&](auto e) { this->set_<L>(on, ps, at + 1, es..., e); });
  }
  void set(bool on, int layer, const J & ps) override
  {
    if constexpr(std::is_base_of_v<LC, K>) set_<LC>(on, ps, 0);
    else if constexpr(std::is_base_of_v<L2, K>) { if(layer == 1) set_<L1>(on, ps, 0); else set_<L2>(on, ps, 0); }
    else if constexpr(std::is_base_of_v<L1, K>) set_<L1>(on, ps, 0);
  }
  void lock(bool l) override
  {
    if constexpr(std::is_base_of_v<LC, K> || std::is_base_of_v<L1, K>) { if(l) k->lock(); else k->unlock(); }
  }
  bool locked() override { if constexpr(std::is_base_of_v<LC, K> || std::is_base_of_v<L1, K>) return k->isLocked(); else return false; }
  void rej(int p) override { if constexpr(std::is_base_of_v<Crit, K>) k->rejected[static_cast<size_t>(p - 1)].flip(); }
  template<typename... Es> void dep_(Consumer & c, int how, const J & ps, size_t at, Es... es)
  {
    if constexpr(sizeof...(Es) > 0) if(at == ps.size()) { c.dep(std::shared_ptr<K>(k), how, es...); return; }
    if constexpr(sizeof...(Es) < 3) en<K>(ps[at].n(), [&](auto e) { this->dep_(c, how, ps, at + 1, es..., e); });
  }
  void dep(Consumer & c, int how, const J & ps) override { dep_(c, how, ps, 0); }
  J on() override
  {
    J r = J::arr();
    for(int p = 1; p <= nOut<K>(); ++p)
    {
      bool a = k->isOutputEnabled(p - 1), b = false;
      en<K>(p, [&](auto e) { b = k->isOutputEnabled(e); });
      r.push(a == b ? (a ? 1 : 0) : 2);
    }
    return r;
  }
  Outputs * ptr() override { return k.get(); }
};
struct OutsSut : mbv::Sut
{
  static constexpr int NO = 3, NC = 2;
  std::unique_ptr<Any> o[NO + 1];
  Consumer c[NC + 1];
  static std::unique_ptr<Any> make(int k)
  {
    switch(k)
    {
      case 1: return std::make_unique<Obj<A>>();
      case 2: return std::make_unique<Obj<B>>();
      case 3: return std::make_unique<Obj<S>>();
      case 4: return std::make_unique<Obj<U>>();
      case 5: return std::make_unique<Obj<V>>();
      case 6: return std::make_unique<Obj<W>>();
      case 7: return std::make_unique<Obj<C>>();
      case 8: return std::make_unique<Obj<D>>();
      default: return std::make_unique<Obj<E>>();
    }
  }
  J step(const J & m) override
  {
    const std::string op = m["op"].s;
    auto & x = o[m["x"].n()];
    if(op == "new") x = make(m["k"].n());
    else if(op == "en" || op == "dis") x->set(op == "en", m["l"].n(), m["ps"]);
    else if(op == "lock") x->lock(true);
    else if(op == "unlock") x->lock(false);
    else if(op == "rej") x->rej(m["p"].n());
    else if(op == "copy") o[m["y"].n()] = x->copy();
    else if(op == "del") x.reset();
    else if(op == "dep") x->dep(c[m["d"].n()], m["how"].n(), m["ps"]);
    return J::obj().set("ok", 1);
  }
  J observe() override
  {
    J on = J::arr(), lock = J::arr(), in = J::arr();
    for(int k = 1; k <= NO; ++k) { on.push(o[k] ? o[k]->on() : J::arr()); lock.push(o[k] && o[k]->locked() ? 1 : 0); }
    for(int d = 1; d <= NC; ++d)
    {
      J l = J::arr();
      for(int k = 1; k <= NO; ++k)
      {
        J s = J::arr();
        if(o[k]) { auto it = c[d].getInput(o[k]->ptr()); if(it) for(int e : it->second) s.push(e + 1); }
        l.push(s);
      }
      in.push(l);
    }
    return J::obj().set("on", on).set("lock", lock).set("in", in);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<OutsSut>(); }); }
