// Replays command sequences on tvm::internal::PairElementToken and CallbackManager. Each command records the
// steps it led to (the callbacks react by further commands), with the state of the tokens after each of them.
#include "mbv.h"
#include <tvm/internal/CallbackManager.h>
#include <tvm/internal/PairElementToken.h>
using mbv::J;
using tvm::internal::CallbackManager;
using tvm::internal::PairElementToken;
using tvm::internal::PairElementTokenHandle;
struct Thrown {};
struct Tokens : mbv::Sut
{
  static constexpr int N = 5, MaxCb = 12;
  std::unique_ptr<CallbackManager> m = std::make_unique<CallbackManager>();
  std::unique_ptr<PairElementToken> tok[N + 1];
  std::map<int, J> armed;
  std::map<int, int> running;
  int nextc = 1, depth = 0;
  J log;
  bool broken = false;

  ~Tokens() { m.reset(); for(auto & t : tok) t.reset(); }
  int seen(int i)
  {
    if(!tok[i]) return 0;
    if(!tok[i]->isPaired()) return 99;
    const PairElementToken * o = &tok[i]->otherPairElement();
    for(int k = 1; k <= N; ++k) if(tok[k].get() == o) return k;
    return 100;
  }
  void note(const char * e, const J & c, int exc = 0)
  {
    J t = J::arr();
    for(int k = 1; k <= N; ++k) t.push(seen(k));
    log.push(J::obj().set("e", e).set("c", c).set("r", J::obj().set("exc", exc)).set("t", t));
  }
  J cbj(int c) { return J::obj().set("op", "cb").set("i", c).set("j", 0); }
  void called(int c)
  {
    note("cb", cbj(c));
    auto it = armed.find(c);
    if(it != armed.end())
    {
      J acts = it->second;
      armed.erase(it);
      for(const auto & a : acts.a)
      {
        if(a["op"].is("throw")) { note("throw", cbj(c)); throw Thrown(); }
        perform(a);
      }
    }
  }
  // the function objects are not to be destroyed while they are executed
  struct Guard
  {
    Tokens * t; int c;
    Guard(Tokens * t, int c) : t(t), c(c) {}
    Guard(const Guard & o) : t(o.t), c(o.c) { ++t->copies[c]; }
    ~Guard() { if(--t->copies[c] == 0 && t->running[c]) t->broken = true; }
  };
  std::map<int, int> copies;
  struct Scope { int & r; Scope(int & r) : r(r) { ++r; } ~Scope() { --r; } };
  std::function<void()> callback(int c)
  {
    if(c % 2)
      return [this, c]() { called(c); note("ret", cbj(c)); };
    copies[c] = 1;
    Guard g(this, c);
    return [g]() { auto t = g.t; int c = g.c; Scope s(t->running[c]); t->called(c); if(t->broken) { std::cerr << "callback destroyed while running" << std::endl; std::abort(); } t->note("ret", t->cbj(g.c)); };
  }
  void perform(const J & c)
  {
    const std::string op = c["op"].s;
    const int i = c["i"].n(), j = c.has("j") ? c["j"].n() : 0;
    auto paired = [&](int k) { return tok[k] && tok[k]->isPaired(); };
    bool on = true;
    if(op == "construct") on = !tok[i];
    else if(op == "destroy" || op == "unregister") on = !!tok[i];
    else if(op == "pair" || op == "movea") on = tok[i] && tok[j];
    else if(op == "movec") on = !tok[i] && tok[j];
    else if(op == "handlec") on = !tok[i] && tok[j] && !paired(j);
    else if(op == "handlea") on = i != j && tok[i] && tok[j] && !paired(j);
    else if(op == "register") on = nextc <= MaxCb;
    else if(op == "run") on = depth < 3;
    else if(op == "newmgr") on = depth == 0;
    if(!on) { note("skip", c); return; }
    try
    {
      if(op == "construct") tok[i] = std::make_unique<PairElementToken>();
      else if(op == "destroy") tok[i].reset();
      else if(op == "pair") tok[i]->pairWith(*tok[j]);
      else if(op == "movec") tok[i] = std::make_unique<PairElementToken>(std::move(*tok[j]));
      else if(op == "movea") *tok[i] = std::move(*tok[j]);
      else if(op == "handlec") tok[i] = std::make_unique<PairElementToken>(PairElementTokenHandle(*tok[j]));
      else if(op == "handlea") *tok[i] = PairElementTokenHandle(*tok[j]);
      else if(op == "register")
      {
        int k = nextc++;
        if(tok[i]) *tok[i] = m->registerCallback(callback(k));
        else tok[i] = std::make_unique<PairElementToken>(m->registerCallback(callback(k)));
      }
      else if(op == "newmgr") m = std::make_unique<CallbackManager>();
      else if(op == "unregister") m->unregisterCallback(*tok[i]);
      else if(op == "run")
      {
        note("do", c);
        ++depth;
        try { m->run(); --depth; note("end", c); }
        catch(const Thrown &) { --depth; }
        return;
      }
    }
    catch(const std::exception &) { note("do", c, 1); return; }
    note("do", c);
  }
  J step(const J & c) override
  {
    log = J::arr();
    if(c["op"].is("arm")) armed[c["i"].n()] = c["acts"];
    else perform(c);
    return J::obj().set("log", log);
  }
  J observe() override
  {
    J w = J::arr();
    for(int a = 1; a <= N; ++a)
    {
      J l = J::arr();
      for(int b = 1; b <= N; ++b) l.push(tok[a] && tok[b] && tok[a]->isPairedWith(*tok[b]) ? 1 : 0);
      w.push(l);
    }
    return J::obj().set("with", w);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<Tokens>(); }); }
