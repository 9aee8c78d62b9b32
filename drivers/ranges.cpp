// Evaluates the operators of Range on pairs of ranges.
#include "mbv.h"
#include <tvm/Range.h>
using mbv::J;
using tvm::Range;
struct World : mbv::Sut
{
  static J rg(const Range & r) { return J::arr().push(r.start).push(r.dim); }
  J step(const J & c) override
  {
    const Range r(c["r"][0].n(), c["r"][1].n());
    J a = J::arr();
    for(auto & x : c["l"].a)
    {
      const Range s(x[0].n(), x[1].n());
      a.push(J::obj().set("eq", r == s).set("ne", r != s).set("ct", r.contains(s)).set("it", r.intersects(s)).set("ti", s.intersects(r)).set("ci", r.contains(s.start)).set("end", r.end())
               .set("sh", rg(r + s.start)).set("mi", rg(r - s.start)).set("rel", r.contains(s) ? rg(r.relativeRange(s)) : rg(Range())));
    }
    return J::obj().set("a", a);
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<World>(); }); }
