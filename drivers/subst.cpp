// Substitutions in control problems, with recording solvers.
#include "lspcommon.h"
#include <tvm/constraint/abstract/LinearConstraint.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
using namespace lsp;

constexpr int VSCALE = 4096, OSCALE = 4;

/** What was handed to a solver: l <= C w <= u, xl <= w <= xu, |A w - b|^2. */
struct Handed
{
  VariableVector vars;
  Eigen::MatrixXd C, A;
  Eigen::VectorXd l, u, b, xl, xu;
  bool bad = false;
};

struct S : mbv::Sut
{
  J cfg;
  World w;
  std::vector<TaskDef> tasks;
  std::vector<std::shared_ptr<hint::Substitution>> subs;
  LinearizedControlProblem pb;
  std::vector<std::shared_ptr<rec::Ctrl>> ctrl;
  std::vector<std::unique_ptr<scheme::WeightedLeastSquares>> schemes;
  std::vector<std::shared_ptr<rec::HCtrl>> hctrl;
  std::vector<std::unique_ptr<scheme::HierarchicalLeastSquares>> hschemes;
  S(const J & c) : cfg(c), w(c["dims"], 1)
  {
    for(const auto & t : c["tasks"].a) tasks.push_back(makeTask(w, t));
    subs.resize(c["subs"].size());
    for(const auto & s : c["schemes"].a)
    {
      ctrl.push_back(nullptr);
      hctrl.push_back(nullptr);
      schemes.push_back(nullptr);
      hschemes.push_back(nullptr);
      if(s["kind"].n() == 1)
      {
        hctrl.back() = std::make_shared<rec::HCtrl>();
        hctrl.back()->variant = s["v"].n() % 2;
        scheme::HierarchicalLeastSquaresOptions o;
        o.autoDamping(s["damp"].n() != 0);
        hschemes.back() = std::make_unique<scheme::HierarchicalLeastSquares>(rec::RecHlsFactory(hctrl.back()), o);
        continue;
      }
      ctrl.back() = std::make_shared<rec::Ctrl>();
      ctrl.back()->variant = s["v"].n();
      scheme::WeightedLeastSquaresOptions o;
      o.scalarizationWeight(2);
      o.autoDamping(s["damp"].n() != 0);
      schemes.back() = std::make_unique<scheme::WeightedLeastSquares>(rec::RecFactory(ctrl.back()), o);
    }
  }
  TaskDef & task(const J & c) { return tasks.at(static_cast<size_t>(c["t"].n())); }
  static J done() { J r = J::obj(); return r.set("ok", J(1)); }

  static Handed handed(const rec::Recorded & r)
  {
    Handed h;
    h.vars = r.vars; h.C = r.C; h.l = r.l; h.u = r.u; h.A = r.A; h.b = r.b; h.xl = r.xl; h.xu = r.xu; h.bad = r.inconsistent;
    return h;
  }
  static Handed handed(const rec::RecordedH & r)
  {
    Handed h;
    h.vars = r.vars; h.xl = r.xl; h.xu = r.xu; h.bad = r.inconsistent;
    const long n = r.xl.size();
    h.C = r.lvl.empty() ? Eigen::MatrixXd(0, n) : r.lvl[0].C;
    h.l = r.lvl.empty() ? Eigen::VectorXd(0) : r.lvl[0].l;
    h.u = r.lvl.empty() ? Eigen::VectorXd(0) : r.lvl[0].u;
    h.A.resize(0, n);
    h.b.resize(0);
    if(r.lvl.size() > 1) { h.A = r.lvl[1].C; h.b = r.lvl[1].l; }
    return h;
  }

  /** Projection of w0 on the equalities (cons: they have a solution). conf: some bounds are contradictory. */
  static Eigen::VectorXd project(const Handed & h, Eigen::VectorXd x, bool & cons, bool & conf)
  {
    conf = (h.xl.array() > h.xu.array()).any();
    std::vector<long> e;
    for(long k = 0; k < h.C.rows(); ++k) if(h.l(k) == h.u(k)) e.push_back(k);
    std::vector<long> f; // fixed variables
    for(long k = 0; k < h.xl.size(); ++k) if(h.xl(k) == h.xu(k)) f.push_back(k);
    Eigen::MatrixXd E = Eigen::MatrixXd::Zero(static_cast<long>(e.size() + f.size()), x.size());
    Eigen::VectorXd d(E.rows());
    for(size_t k = 0; k < f.size(); ++k) { E(static_cast<long>(e.size() + k), f[k]) = 1; d(static_cast<long>(e.size() + k)) = h.xl(f[k]); }
    for(size_t k = 0; k < e.size(); ++k) { E.row(static_cast<long>(k)) = h.C.row(e[k]); d(static_cast<long>(k)) = h.l(e[k]); }
    cons = true;
    if(E.rows() == 0) return x;
    if(x.size() > 0)
    {
      Eigen::VectorXd dx = E.completeOrthogonalDecomposition().solve(d - E * x);
      x += dx;
    }
    Eigen::VectorXd res = x.size() > 0 ? Eigen::VectorXd(E * x - d) : Eigen::VectorXd(-d);
    cons = res.cwiseAbs().maxCoeff() < 1e-6;
    return x;
  }

  J points(const Handed & h, const J & pts)
  {
    const auto & sb = pb.substitutions();
    VariableVector z(sb.additionalVariables());
    std::vector<Eigen::VectorXd> keep;
    for(auto & x : w.vars) keep.push_back(x->value());
    Eigen::VectorXd keepz = z.value();
    const int N = w.cols(), nz = z.totalSize();
    // columns of the substituted variables
    std::vector<int> xc;
    for(const auto & x : sb.variables()) { int c = w.col(*x); for(int k = 0; k < x->size(); ++k) xc.push_back(c + k); }
    auto zero = [&] { for(auto & x : w.vars) x->set(Eigen::VectorXd::Zero(x->size())); z.set(Eigen::VectorXd::Zero(nz)); };
    auto read = [&] {
      sb.updateVariableValues();
      Eigen::VectorXd r(static_cast<long>(xc.size()));
      long k = 0;
      for(const auto & x : sb.variables()) { r.segment(k, x->size()) = x->value(); k += x->size(); }
      return r;
    };
    zero();
    Eigen::VectorXd g = read();
    Eigen::MatrixXd E = Eigen::MatrixXd::Zero(g.size(), N), F = Eigen::MatrixXd::Zero(g.size(), nz);
    for(size_t v = 0; v < w.vars.size(); ++v)
      for(int k = 0; k < w.vars[v]->size(); ++k)
      {
        int c = w.off[v] + k;
        if(std::find(xc.begin(), xc.end(), c) != xc.end()) continue;
        zero();
        Eigen::VectorXd e = Eigen::VectorXd::Zero(w.vars[v]->size());
        e(k) = 1;
        w.vars[v]->set(e);
        E.col(c) = read() - g;
      }
    for(int k = 0; k < nz; ++k)
    {
      zero();
      z.set(Eigen::VectorXd::Unit(nz, k));
      F.col(k) = read() - g;
    }
    for(size_t v = 0; v < w.vars.size(); ++v) w.vars[v]->set(keep[v]);
    z.set(keepz);
    // columns of the problem: >= 0 in the world, -1-k for component k of z
    std::vector<int> map;
    bool bad = h.bad;
    for(const auto & x : h.vars)
      for(int k = 0; k < x->size(); ++k)
      {
        int c = w.col(*x);
        if(c >= 0)
        {
          map.push_back(c + k);
          if(std::find(xc.begin(), xc.end(), c + k) != xc.end()) bad = true; // a substituted variable remains
        }
        else if(z.indexOf(*x) >= 0) map.push_back(-1 - (x->getMappingIn(z).start + k));
        else { map.push_back(0); bad = true; }
      }
    for(size_t a = 0; a < map.size(); ++a) for(size_t b = 0; b < a; ++b) if(map[a] == map[b]) bad = true;
    if(static_cast<long>(map.size()) != h.C.cols() || static_cast<long>(map.size()) != h.A.cols()) bad = true;
    J out = J::obj(), l = J::arr();
    out.set("bad", J(bad ? 1 : 0));
    if(!bad)
      for(const auto & q : pts.a)
      {
        Eigen::VectorXd p = toVec(q), px(g.size());
        for(size_t k = 0; k < xc.size(); ++k) px(static_cast<long>(k)) = p(xc[k]);
        Eigen::VectorXd d = px - g;
        for(int c = 0; c < N; ++c) d -= E.col(c) * p(c); // zero column for substituted ones
        Eigen::VectorXd zv = Eigen::VectorXd::Zero(nz);
        if(nz > 0 && d.size() > 0) { zv = F.completeOrthogonalDecomposition().solve(d); d -= F * zv; }
        bool f = d.size() == 0 || d.cwiseAbs().maxCoeff() < 1e-6;
        Eigen::VectorXd v(static_cast<long>(map.size()));
        for(size_t k = 0; k < map.size(); ++k) v(static_cast<long>(k)) = map[k] >= 0 ? p(map[k]) : zv(-1 - map[k]);
        const double tol = 1e-6;
        for(long k = 0; k < v.size(); ++k) if(!(v(k) >= h.xl(k) - tol && v(k) <= h.xu(k) + tol)) f = false;
        Eigen::VectorXd y = h.C.rows() ? Eigen::VectorXd(h.C * v) : Eigen::VectorXd(0);
        for(long k = 0; k < y.size(); ++k) if(!(y(k) >= h.l(k) - tol && y(k) <= h.u(k) + tol)) f = false;
        J o = J::obj();
        o.set("f", J(f ? 1 : 0)).set("o", f && h.A.rows() ? mbv::rnd((h.A * v - h.b).squaredNorm(), OSCALE) : J(0));
        l.push(o);
      }
    return out.set("pts", l);
  }

  J step(const J & c) override
  {
    if(c["op"].is("add")) { pb.add(task(c).tr); return done(); }
    if(c["op"].is("remove")) { pb.remove(*task(c).tr); return done(); }
    if(c["op"].is("sub"))
    {
      const auto & s = cfg["subs"][static_cast<size_t>(c["u"].n())];
      std::vector<LinearConstraintPtr> cs;
      std::vector<VariablePtr> xs;
      for(const auto & t : s["c"].a) cs.push_back(pb.constraint(*tasks.at(static_cast<size_t>(t.n())).tr));
      for(const auto & x : s["x"].a) xs.push_back(w.get(x[0].n(), x[1].n(), x[2].n(), 0));
      int rank = s["rank"].n() < 0 ? constant::fullRank : s["rank"].n();
      auto & q = subs.at(static_cast<size_t>(c["u"].n()));
      auto idx = [](const J & l) { std::vector<Eigen::DenseIndex> r; for(const auto & k : l.a) r.push_back(k.n()); return r; };
      if(s["calc"]["k"].is("auto"))
      {
        if(cs.size() == 1 && xs.size() == 1) q = std::make_shared<hint::Substitution>(cs[0], xs[0], rank);
        else q = std::make_shared<hint::Substitution>(cs, xs, rank);
      }
      else if(s["calc"]["k"].is("rows"))
        q = std::make_shared<hint::Substitution>(cs, xs, rank, hint::internal::DiagonalCalculator(idx(s["calc"]["nnz"]), idx(s["calc"]["zero"])));
      else
        q = std::make_shared<hint::Substitution>(cs, xs, rank, hint::internal::DiagonalCalculator(s["calc"]["nnz"][0].n(), static_cast<long>(s["calc"]["nnz"].size())));
      pb.add(*q);
      return done();
    }
    if(c["op"].is("unsub")) { pb.remove(*subs.at(static_cast<size_t>(c["u"].n()))); return done(); }
    if(c["op"].is("base"))
    {
      for(size_t k = 0; k < tasks.size(); ++k) tasks[k].f->b(toVec(c["b"][k]));
      return done();
    }
    if(c["op"].is("scale"))
    {
      auto & t = task(c);
      const auto & bl = cfg["tasks"][static_cast<size_t>(c["t"].n())]["bl"];
      for(size_t k = 0; k < t.x.size(); ++k)
        if(!bl[k]["cst"].b) t.f->A(static_cast<double>(c["f"].n()) * toMat(bl[k]["M"]), *t.x[k], props(bl[k]["p"].s));
      t.f->b(toVec(c["b"]));
      return done();
    }
    if(c["op"].is("b")) { task(c).f->b(toVec(c["b"])); return done(); }
    if(c["op"].is("weight")) { task(c).tr->requirements.weight() = static_cast<double>(c["w"].n()); return done(); }
    if(c["op"].is("x")) { w.base(c["v"].n(), 0)->set(toVec(c["x"])); return done(); }
    if(c["op"].is("solve"))
    {
      size_t s = static_cast<size_t>(c["s"].n());
      J r = J::obj();
      auto run = [&](auto & q, auto & sch) {
        bool cons = true, conf = false;
        q.success = true;
        q.answer = [&](const auto & x) {
          auto h = handed(x);
          auto m = w.map(x.vars);
          Eigen::VectorXd v(static_cast<long>(m.size()));
          size_t nz = 0;
          for(size_t k = 0; k < m.size(); ++k) v(static_cast<long>(k)) = m[k] < 0 ? c["z"][nz++ % c["z"].size()].n() : c["w"][static_cast<size_t>(m[k])].n();
          return project(h, v, cons, conf);
        };
        int before = q.solves;
        bool b = sch.solve(pb);
        r.set("ok", J(b ? 1 : 0)).set("n", q.solves - before).set("cons", J(cons ? 1 : 0)).set("conf", J(conf ? 1 : 0));
        Handed h;
        if(q.solves > before) h = handed(q.last);
        else { h.C.resize(0, 0); h.A.resize(0, 0); }
        J p = points(h, c["pts"]);
        r.set("bad", p["bad"]).set("pts", p["pts"]);
      };
      if(schemes[s]) run(*ctrl[s], *schemes[s]);
      else run(*hctrl[s], *hschemes[s]);
      double mx = 0;
      for(auto & x : w.vars) if(x->size()) mx = std::max(mx, x->value().cwiseAbs().maxCoeff());
      r.set("big", J(mx > 4000 ? 1 : 0));
      return r;
    }
    std::cerr << "unknown command" << std::endl;
    std::_Exit(77);
  }
  J observe() override
  {
    J o = J::obj(), v = J::arr();
    for(auto & x : w.vars) for(int k = 0; k < x->size(); ++k) v.push(mbv::rnd(x->value()(k), VSCALE));
    return o.set("val", v).set("size", J(pb.size())).set("subs", J(static_cast<long long>(pb.substitutions().substitutions().size())));
  }
};
int main(int argc, char ** argv) { return mbv::main_(argc, argv, [](const J & c) { return std::make_unique<S>(c); }); }
