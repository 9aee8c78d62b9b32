// Declares properties of matrices and combines them.
#include "mbv.h"
#include <tvm/internal/MatrixProperties.h>
using mbv::J;
using MP = tvm::internal::MatrixProperties;
template<unsigned Used, typename... A> MP make_(const J & d, const int * ord, int at, const A &... a)
{
  if(at == 4) return MP(a...);
  const int k = ord[at];
  if constexpr(!(Used & 1u)) if(k == 0) return make_<Used | 1u>(d, ord, at + 1, a..., static_cast<MP::Shape>(d["sh"].n()));
  if constexpr(!(Used & 2u)) if(k == 1) return make_<Used | 2u>(d, ord, at + 1, a..., static_cast<MP::Positiveness>(d["po"].n()));
  if constexpr(!(Used & 4u)) if(k == 2) { if(d["c"].n() == 2) return make_<Used>(d, ord, at + 1, a...); return make_<Used | 4u>(d, ord, at + 1, a..., MP::Constness(d["c"].n() == 1)); }
  if constexpr(!(Used & 8u)) if(k == 3) { if(d["v"].n() == 2) return make_<Used>(d, ord, at + 1, a...); return make_<Used | 8u>(d, ord, at + 1, a..., MP::Invertibility(d["v"].n() == 1)); }
  std::cerr << "driver: bad order" << std::endl;
  std::_Exit(77);
}
static MP make(const J & d, int n = 0)
{
  int o[4] = {0, 1, 2, 3};
  for(int k = 0; k < n; ++k) std::next_permutation(o, o + 4);
  return make_<0>(d, o, 0);
}
static J tell(const MP & p)
{
  J q = J::arr();
  for(bool b : {p.isInvertible(), p.isTriangular(), p.isLowerTriangular(), p.isUpperTriangular(), p.isDiagonal(), p.isMultipleOfIdentity(), p.isIdentity(), p.isMinusIdentity(),
                p.isZero(), p.isSymmetric(), p.isPositiveSemiDefinite(), p.isPositiveDefinite(), p.isNegativeSemidefinite(), p.isNegativeDefinite(), p.isIndefinite(), p.isNonZeroIndefinite()})
    q.push(b ? 1 : 0);
  bool c = p.isConstant(), v = p.isInvertible();
  if(c != p.constness() || v != p.invertibility()) return J::obj().set("inconsistent", 1);
  return J::obj().set("q", q).set("sh", static_cast<int>(p.shape())).set("po", static_cast<int>(p.positiveness())).set("c", c ? 1 : 0);
}
struct Props : mbv::Sut
{
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    if(op == "decl") return tell(make(c["a"], c["ord"].n()));
    const MP a = make(c["a"]);
    if(op == "neg") return tell(-a);
    if(op == "scale") return tell((c["f"].n() / 2.) * a);
    MP b = make(c["b"]);
    if(op == "add") return tell(a + b);
    if(op == "sub") return tell(a - b);
    return tell(a * b);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<Props>(); }); }
