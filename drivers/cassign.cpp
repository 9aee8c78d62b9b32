// Compiled assignments on views of buffers.
#include "mbv.h"
#include <tvm/scheme/internal/CompiledAssignment.h>
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>
#include <optional>
using mbv::J;
using namespace Eigen;
namespace si = tvm::scheme::internal;
using WV = si::CompiledAssignmentWrapper<VectorXd>;
using WM = si::CompiledAssignmentWrapper<MatrixXd>;
static int idx(const std::string & s, std::initializer_list<const char *> l)
{
  int k = 0;
  for(auto x : l) { if(s == x) return k; ++k; }
  std::cerr << "driver: unknown " << s << std::endl;
  std::_Exit(77);
}
struct Data
{
  MatrixXd t[2], s[2], m[2], d[2];
  double ws[2] = {0, 0};
  VectorXd wd[2];
  Data() { for(int k = 0; k < 2; ++k) { t[k] = s[k] = m[k] = MatrixXd::Zero(4, 4); d[k] = MatrixXd::Constant(4, 4, 7.); d[k].diagonal().setOnes(); wd[k] = VectorXd::Zero(4); } }
  bool sameInputs(const Data & o) const
  { for(int k = 0; k < 2; ++k) if(s[k] != o.s[k] || m[k] != o.m[k] || d[k] != o.d[k] || ws[k] != o.ws[k] || wd[k] != o.wd[k]) return false; return true; }
};
template<typename Ma> auto view(MatrixXd * b, const J & v)
{
  MatrixXd & x = b[v[0].n() - 1];
  if constexpr(Ma::ColsAtCompileTime == 1) return x.col(v[2].n()).segment(v[1].n(), v[3].n());
  else return x.block(v[1].n(), v[2].n(), v[3].n(), v[4].n());
}
template<typename Ma, int A, int W, int M> si::CompiledAssignmentWrapper<Ma> make_(Data & D, const J & x)
{
  using R = si::CompiledAssignmentWrapper<Ma>;
  constexpr auto a = static_cast<si::AssignType>(A);
  constexpr auto w = static_cast<si::WeightMult>(W);
  constexpr auto m = static_cast<si::MatrixMult>(M);
  auto to = view<Ma>(D.t, x["to"]);
  auto go = [&](auto f, const auto &... args) -> R { return R::template make<a, w, m, decltype(f)::value>(to, args...); };
  auto mult = [&](auto f, const auto &... args) -> R {
    const J & u = x["mu"];
    if constexpr(m == si::IDENTITY) return go(f, args...);
    else if constexpr(m == si::GENERAL) return go(f, args..., view<MatrixXd>(D.m, u));
    else return go(f, args..., D.d[u[0].n() - 1].block(u[1].n(), u[1].n(), u[2].n(), u[2].n()));
  };
  auto weight = [&](auto f, const auto & from) -> R {
    const J & u = x["wt"];
    if constexpr(w == si::SCALAR) return mult(f, from, D.ws[u.n() - 1]);
    else if constexpr(w == si::DIAGONAL) return mult(f, from, D.wd[u[0].n() - 1].segment(u[1].n(), u[2].n()));
    else return mult(f, from);
  };
  const int F = idx(x["F"].s, {"ext", "zero", "cst"});
  if(F == 0) return weight(std::integral_constant<si::Source, si::EXTERNAL>{}, view<Ma>(D.s, x["fr"]));
  if(F == 1)
  {
    if constexpr(w == si::NONE && m == si::IDENTITY) return go(std::integral_constant<si::Source, si::ZERO>{});
  }
  else if constexpr(Ma::ColsAtCompileTime == 1) return weight(std::integral_constant<si::Source, si::CONSTANT>{}, static_cast<double>(x["fr"].n()));
  std::cerr << "driver: bad kind" << std::endl;
  std::_Exit(77);
}
template<typename Ma, int N> struct Table
{
  static si::CompiledAssignmentWrapper<Ma> make(int n, Data & D, const J & x)
  {
    if(n == N) return make_<Ma, N / 12, (N / 3) % 4, N % 3>(D, x);
    if constexpr(N > 0) return Table<Ma, N - 1>::make(n, D, x);
    std::_Exit(77);
  }
};
struct CAssign : mbv::Sut
{
  Data D, ref; // ref: what the inputs must still be
  std::optional<WV> v[5];
  std::optional<WM> m[5];
  static void fill(MatrixXd & x, const J & v) { for(int r = 0; r < 4; ++r) for(int c = 0; c < 4; ++c) x(r, c) = v[r][c].n(); }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const int k = c.has("k") ? c["k"].n() - 1 : 0, b = c.has("b") ? c["b"].n() - 1 : 0, j = c.has("j") ? c["j"].n() - 1 : 0;
    if(op == "make")
    {
      const J & x = c["x"];
      const int n = idx(x["A"].s, {"copy", "add", "sub", "min", "max"}) * 12 + idx(x["W"].s, {"none", "minus", "scalar", "diag"}) * 3 + idx(x["M"].s, {"id", "gen", "inv"});
      v[k].reset(); m[k].reset();
      if(x["ty"].is("v")) v[k].emplace(Table<VectorXd, 59>::make(n, D, x)); else m[k].emplace(Table<MatrixXd, 59>::make(n, D, x));
    }
    else if(op == "run") { if(v[k]) v[k]->run(); else m[k]->run(); }
    else if(op == "to") { if(v[k]) v[k]->to(view<VectorXd>(D.t, c["v"])); else m[k]->to(view<MatrixXd>(D.t, c["v"])); }
    else if(op == "from") { if(v[k]) v[k]->from(view<VectorXd>(D.s, c["v"])); else m[k]->from(view<MatrixXd>(D.s, c["v"])); }
    else if(op == "fromc") { if(v[k]) v[k]->from(static_cast<double>(c["v"].n())); else m[k]->from(static_cast<double>(c["v"].n())); }
    else if(op == "copy" || op == "move") { if(v[j]) { m[k].reset(); tr(v[k], v[j], op == "move"); } else { v[k].reset(); tr(m[k], m[j], op == "move"); } }
    else if(op == "drop") { v[k].reset(); m[k].reset(); }
    else if(op == "st") fill(D.t[b], c["v"]);
    else if(op == "ss") { fill(D.s[b], c["v"]); ref = D; }
    else if(op == "sm") { fill(D.m[b], c["v"]); ref = D; }
    else if(op == "sd") { for(int r = 0; r < 4; ++r) D.d[b](r, r) = 1. / c["v"][r].n(); ref = D; }
    else if(op == "sw") { D.ws[b] = c["v"].n(); ref = D; }
    else if(op == "sv") { for(int r = 0; r < 4; ++r) D.wd[b](r) = c["v"][r].n(); ref = D; }
    return J::obj().set("ok", 1);
  }
  // into an empty place by construction, over another one by assignment
  template<typename O> static void tr(O & a, O & b, bool mv)
  {
    if(mv) { if(a) *a = std::move(*b); else a.emplace(std::move(*b)); b.reset(); }
    else { if(a) *a = *b; else a.emplace(*b); }
  }
  J observe() override
  {
    J t = J::arr();
    for(int k = 0; k < 2; ++k) t.push(mbv::mat(D.t[k]));
    return J::obj().set("t", t).set("o", D.sameInputs(ref) ? 1 : 0);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<CAssign>(); }); }
