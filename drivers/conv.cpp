// C09: assignments of linear constraints to solver storages (spec/Conv.tla).
#include "lspcommon.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
using namespace tvm;
using namespace Eigen;
using mbv::J;
using scheme::internal::Assignment;
using scheme::internal::AssignmentTarget;
using constraint::RHS;
using constraint::Type;
using BLC = constraint::BasicLinearConstraint;
constexpr int R = 8, C = 6, MARK = 7, UNIT = 4;
struct Mem
{
  MatrixXd A = MatrixXd::Zero(R, C);
  VectorXd b = VectorXd::Constant(R, MARK), l = b, u = b;
  VectorXd xl = VectorXd::Constant(C, MARK), xu = xl, sl = xl, su = xl;
  void reset() { A.setZero(); b.setConstant(MARK); l = u = b; xl.setConstant(MARK); xu = sl = su = xl; }
};
static RHS conv(const std::string & s) { return s == "zero" ? RHS::ZERO : s == "as" ? RHS::AS_GIVEN : RHS::OPPOSITE; }
struct As
{
  std::string k, t, rhs;
  RangePtr range;
  SolvingRequirementsPtr req;
  VariablePtr x;
  bool first = true;
  std::unique_ptr<Assignment> a;
};
struct S : mbv::Sut
{
  std::vector<VariablePtr> base, var;
  VariableVector vv;
  std::unique_ptr<Mem> mem = std::make_unique<Mem>();
  std::map<int, std::shared_ptr<BLC>> src;
  std::map<int, As> as;
  S()
  {
    base = {Space(2).createVariable("x"), Space(3).createVariable("y"), Space(1).createVariable("z")};
    var = {base[0], base[1], base[2], base[0]->subvariable(1, "x0", 0), base[1]->subvariable(2, "y1", 1), base[1]->subvariable(2, "y0", 0)};
    for(auto & b : base) vv.add(b);
  }
  J makeSrc(const J & c)
  {
    const J & x = c["x"];
    std::vector<MatrixXd> ms;
    std::vector<VariablePtr> xs;
    for(auto & b : x["bl"].a) { ms.push_back(lsp::toMat(b["M"])); xs.push_back(var[static_cast<size_t>(b["p"].n() - 1)]); }
    std::vector<MatrixConstRef> As(ms.begin(), ms.end());
    const Type t = lsp::ctype(x["t"].s);
    const RHS r = conv(x["rhs"].s);
    std::shared_ptr<BLC> s;
    if(t == Type::DOUBLE_SIDED) s = std::make_shared<BLC>(As, xs, lsp::toVec(x["lo"]), lsp::toVec(x["hi"]), r);
    else if(r == RHS::ZERO) s = std::make_shared<BLC>(As, xs, t);
    else s = std::make_shared<BLC>(As, xs, lsp::toVec(x["lo"]), t, r);
    for(size_t k = 0; k < xs.size(); ++k) s->A(ms[k], *xs[k], lsp::props(x["bl"][k]["pr"].s));
    src[c["k"].n()] = s;
    return J::obj().set("ok", 1);
  }
  AssignmentTarget target(const As & x)
  {
    const Type t = lsp::ctype(x.t);
    if(x.k == "bnd") return AssignmentTarget(x.range, VectorRef(mem->xl), VectorRef(mem->xu));
    if(x.k == "sbnd") return AssignmentTarget(x.range, VectorRef(t == Type::GREATER_THAN ? mem->sl : mem->su), t);
    if(t == Type::DOUBLE_SIDED) return AssignmentTarget(x.range, mem->A, mem->l, mem->u, conv(x.rhs));
    if(x.rhs == "zero") return AssignmentTarget(x.range, MatrixRef(mem->A), t);
    return AssignmentTarget(x.range, mem->A, mem->b, t, conv(x.rhs));
  }
  J makeAs(const J & c)
  {
    As x;
    x.k = c["k"].s;
    x.t = c["t"].s;
    x.rhs = c["rhs"].s;
    auto s = src.at(c["s"].n());
    if(x.k == "gen")
    {
      x.range = std::make_shared<Range>(c["at"].n(), c["n"].n());
      if(c["no"].n() == 0)
      {
        requirements::SolvingRequirements r;
        if(c["w"].n() > 0) r.weight() = static_cast<double>(c["w"].n());
        if(c["aw"].size() > 0) r.anisotropicWeight() = lsp::toVec(c["aw"]);
        x.req = std::make_shared<requirements::SolvingRequirementsWithCallbacks>(r);
      }
      x.a = std::make_unique<Assignment>(s, x.req, target(x), vv, nullptr, static_cast<double>(c["sc"].n()));
    }
    else
    {
      x.x = s->variables()[0];
      for(auto & o : as) if(o.second.k == x.k && o.second.t == x.t && *o.second.x == *x.x) x.first = false;
      x.range = std::make_shared<Range>(x.x->getMappingIn(vv));
      x.a = std::make_unique<Assignment>(s, target(x), x.x, x.first);
    }
    as[c["a"].n()] = std::move(x);
    return J::obj().set("ok", 1);
  }
  // the storage is another one
  void retarget(As & x)
  {
    auto & t = x.a->target({});
    if(x.k == "bnd") t.changeData(VectorRef(mem->xl), VectorRef(mem->xu));
    else if(x.k == "sbnd") t.setb(x.t == "ge" ? mem->sl : mem->su);
    else if(x.t == "ds") t.changeData(MatrixRef(mem->A), VectorRef(mem->l), VectorRef(mem->u));
    else if(x.rhs == "zero") t.setA(mem->A);
    else t.changeData(MatrixRef(mem->A), VectorRef(mem->b));
    x.a->onUpdatedTarget();
  }
  J step(const J & c) override
  {
    const std::string op = c["op"].s;
    const J ok = J::obj().set("ok", 1);
    if(op == "src") return makeSrc(c);
    if(op == "as") return makeAs(c);
    if(op == "A")
    {
      auto & s = src.at(c["k"].n());
      auto & x = *s->variables()[c["j"].n() - 1];
      auto p = s->jacobian(x).properties();
      s->A(lsp::toMat(c["M"]), x, p);
    }
    else if(op == "v")
    {
      auto & s = src.at(c["k"].n());
      if(s->type() == Type::DOUBLE_SIDED) { s->l(lsp::toVec(c["lo"])); s->u(lsp::toVec(c["hi"])); }
      else s->b(lsp::toVec(c["lo"]));
    }
    else if(op == "w")
    {
      auto & x = as.at(c["a"].n());
      x.req->weight() = static_cast<double>(c["v"].n());
      x.a->onUpdateWeights(true, false);
    }
    else if(op == "aw")
    {
      auto & x = as.at(c["a"].n());
      x.req->anisotropicWeight() = lsp::toVec(c["v"]);
      x.a->onUpdateWeights(false, true);
    }
    else if(op == "map")
    {
      VariableVector n;
      for(auto & k : c["o"].a) n.add(base[static_cast<size_t>(k.n() - 1)]);
      vv = n;
      for(auto & o : as)
      {
        auto & x = o.second;
        if(x.k == "gen") x.a->onUpdatedMapping(vv, c["how"].n() == 1);
        else x.range->start = x.x->getMappingIn(vv).start;
        if(x.k != "gen" || c["how"].n() == 0) x.a->onUpdatedTarget();
      }
    }
    else if(op == "mem")
    {
      auto old = std::move(mem);
      mem = std::make_unique<Mem>();
      for(auto & o : as) retarget(o.second);
    }
    else if(op == "at")
    {
      auto & x = as.at(c["a"].n());
      x.range->start = c["at"].n();
      x.a->onUpdatedTarget();
    }
    else if(op == "rep")
    {
      auto & x = as.at(c["a"].n());
      if(x.k == "gen") *x.a = Assignment::reprocess(*x.a, vv, nullptr);
      else *x.a = Assignment::reprocess(*x.a, x.x, x.first);
    }
    else if(op == "ask")
    {
      auto & x = as.at(c["a"].n());
      return J::obj().set("sw", x.a->changeScalarWeightIsAllowed() ? 1 : 0).set("vw", x.a->changeVectorWeightIsAllowed() ? 1 : 0);
    }
    else
    {
      mem->reset();
      for(auto & o : order()) as.at(o).a->run();
    }
    return ok;
  }
  // the first bound of a variable is run first
  std::vector<int> order()
  {
    std::vector<int> r;
    for(auto & o : as) if(o.second.first) r.push_back(o.first);
    for(auto & o : as) if(!o.second.first) r.push_back(o.first);
    return r;
  }
  J observe() override
  {
    // columns in the order x, y, z
    auto cols = [&](const MatrixXd & m) {
      MatrixXd r(m.rows(), C);
      int k = 0;
      for(auto & b : base)
      {
        int s = 0;
        for(auto & v : vv.variables()) { if(*v == *b) break; s += v->size(); }
        for(int j = 0; j < b->size(); ++j) r.col(k++) = m.col(s + j);
      }
      return r;
    };
    auto bnd = [&](const VectorXd & v) { return mbv::vec(VectorXd(cols(v.transpose()).transpose()), UNIT); };
    return J::obj().set("A", mbv::mat(cols(mem->A))).set("b", mbv::vec(mem->b)).set("l", mbv::vec(mem->l)).set("u", mbv::vec(mem->u))
      .set("xl", bnd(mem->xl)).set("xu", bnd(mem->xu)).set("sl", bnd(mem->sl)).set("su", bnd(mem->su));
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J &) { return std::make_unique<S>(); }); }
