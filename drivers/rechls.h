// Hierarchical solvers that record the levels they are given. Variant 0 follows LexLS (per level one
// double-sided matrix), variant 1 has separate equality (opposite rhs) and <= rows and no double-sided row.
#pragma once
#include "recsolver.h"
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/solver/abstract/HierarchicalLeastSquareSolver.h>

namespace rec
{
using HBase = tvm::solver::abstract::HierarchicalLeastSquareSolver;

struct RecordedLevel
{
  Eigen::MatrixXd C;
  Eigen::VectorXd l, u;
};
struct RecordedH
{
  tvm::VariableVector vars;
  std::vector<RecordedLevel> lvl;
  Eigen::VectorXd xl, xu;
  bool inconsistent = false;
};
struct HCtrl
{
  int variant = 0;
  RecordedH last;
  int solves = 0;
  std::function<Eigen::VectorXd(const RecordedH &)> answer;
  bool success = true;
};

class RecHls : public HBase
{
public:
  RecHls(std::shared_ptr<HCtrl> c) : HBase(false), c_(c), v_(c->variant) {}

protected:
  static constexpr double big_ = tvm::constant::big_number;
  int n() const { return variables().totalSize(); }
  struct Lvl
  {
    Eigen::MatrixXd A; // equalities then inequalities
    Eigen::VectorXd l, u; // v_ = 0: bounds of the rows; v_ = 1: l is the (opposite) rhs of the equalities, u the rhs of the others
  };
  void initializeBuild_(const std::vector<int> & nEq, const std::vector<int> & nIneq, bool useBounds) override
  {
    autoMinNorm_ = false;
    resize_(nEq, nIneq, useBounds);
  }
  ImpactFromChanges resize_(const std::vector<int> & nEq, const std::vector<int> & nIneq, bool useBounds) override
  {
    ImpactFromChanges i(static_cast<int>(nEq.size()));
    L_.clear();
    for(size_t k = 0; k < nEq.size(); ++k)
    {
      L_.push_back(std::make_unique<Lvl>());
      auto & l = *L_.back();
      const int m = nEq[k] + nIneq[k];
      l.A = Eigen::MatrixXd::Zero(m, n());
      l.l = Eigen::VectorXd::Constant(v_ == 0 ? m : nEq[k], v_ == 0 ? -big_ : 0);
      l.u = Eigen::VectorXd::Constant(v_ == 0 ? m : nIneq[k], big_);
      i.equalityConstraints_[k] = i.inequalityConstraints_[k] = true;
    }
    i.bounds_ = true;
    const int nb = useBounds ? n() : 0;
    xl_ = Eigen::VectorXd::Constant(nb, -big_);
    xu_ = Eigen::VectorXd::Constant(nb, big_);
    return i;
  }
  void addBound_(LinearConstraintPtr bound, RangePtr range, bool first) override
  { addAssignement(bound, AssignmentTarget(range, xl_, xu_), bound->variables()[0], first); }
  void addEqualityConstraint_(LinearConstraintPtr c, SolvingRequirementsPtr req) override
  {
    const int p = req->priorityLevel().value();
    auto & l = *L_.at(static_cast<size_t>(p));
    RangePtr r = std::make_shared<Range>(nextEqualityConstraintRange_(p, *c));
    if(v_ == 0) addAssignement(c, req, AssignmentTarget(r, l.A, l.l, l.u, RHS::AS_GIVEN), variables(), substitutions());
    else addAssignement(c, req, AssignmentTarget(r, l.A, l.l, Type::EQUAL, RHS::OPPOSITE), variables(), substitutions());
  }
  MatrixRef ineqs(int p) { auto & l = *L_.at(static_cast<size_t>(p)); return l.A.bottomRows(nIneq_[static_cast<size_t>(p)]); }
  void addIneqalityConstraint_(LinearConstraintPtr c, SolvingRequirementsPtr req) override
  {
    const int p = req->priorityLevel().value();
    auto & l = *L_.at(static_cast<size_t>(p));
    RangePtr r = std::make_shared<Range>(nextInequalityConstraintRange_(p, *c));
    if(v_ == 0) addAssignement(c, req, AssignmentTarget(r, l.A, l.l, l.u, RHS::AS_GIVEN), variables(), substitutions());
    else addAssignement(c, req, AssignmentTarget(r, ineqs(p), l.u, Type::LOWER_THAN, RHS::AS_GIVEN), variables(), substitutions());
  }
  void setMinimumNorm_() override
  {
    autoMinNorm_ = true;
    auto & l = *L_.back();
    l.A.setIdentity();
    l.l.setZero();
    if(v_ == 0) l.u.setZero();
  }
  void resetBounds_() override { xl_.setConstant(-big_); xu_.setConstant(big_); }
  bool handleDoubleSidedConstraint_() const override { return v_ == 0; }
  Range nextEqualityConstraintRange_(int p, const tvm::constraint::abstract::LinearConstraint & c) const override
  { auto k = static_cast<size_t>(p); return {v_ == 0 ? eqSize_[k] + ineqSize_[k] : eqSize_[k], c.size()}; }
  Range nextInequalityConstraintRange_(int p, const tvm::constraint::abstract::LinearConstraint & c) const override
  { auto k = static_cast<size_t>(p); return {v_ == 0 ? eqSize_[k] + ineqSize_[k] : ineqSize_[k], constraintSize(c)}; }
  void removeBounds_(const Range &) override {}
  void updateEqualityTargetData(int p, AssignmentTarget & t) override
  { auto & l = *L_.at(static_cast<size_t>(p)); if(v_ == 0) t.changeData(MatrixRef(l.A), l.l, l.u); else t.changeData(MatrixRef(l.A), l.l); }
  void updateInequalityTargetData(int p, AssignmentTarget & t) override
  { auto & l = *L_.at(static_cast<size_t>(p)); if(v_ == 0) t.changeData(MatrixRef(l.A), l.l, l.u); else t.changeData(ineqs(p), l.u); }
  void updateBoundTargetData(AssignmentTarget & t) override { t.changeData(VectorRef(xl_), xu_); }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}
  bool solve_() override
  {
    ++c_->solves;
    RecordedH r;
    r.vars = variables();
    for(size_t k = 0; k < L_.size(); ++k)
    {
      const auto & l = *L_[k];
      RecordedLevel o;
      const int me = nEq_[k], mi = nIneq_[k];
      if(eqSize_[k] != me || ineqSize_[k] != mi || l.A.rows() != me + mi || l.A.cols() != n()) r.inconsistent = true;
      o.C = l.A;
      if(v_ == 0) { o.l = l.l; o.u = l.u; }
      else
      {
        o.l.resize(me + mi);
        o.u.resize(me + mi);
        o.l.head(me) = autoMinNorm_ && k + 1 == L_.size() ? l.l : Eigen::VectorXd(-l.l);
        o.u.head(me) = o.l.head(me);
        o.l.tail(mi).setConstant(-big_);
        o.u.tail(mi) = l.u;
      }
      r.lvl.push_back(o);
    }
    r.xl = Eigen::VectorXd::Constant(n(), -big_);
    r.xu = Eigen::VectorXd::Constant(n(), big_);
    if(useBounds_) { r.xl = xl_; r.xu = xu_; }
    c_->last = r;
    res_ = c_->answer(r);
    return c_->success;
  }
  const Eigen::VectorXd & result_() const override { return res_; }

  std::shared_ptr<HCtrl> c_;
  int v_;
  std::vector<std::unique_ptr<Lvl>> L_;
  Eigen::VectorXd xl_, xu_, res_;
  bool autoMinNorm_ = false;
};

class RecHlsFactory : public tvm::solver::abstract::HLSSolverFactory
{
public:
  RecHlsFactory(std::shared_ptr<HCtrl> c) : HLSSolverFactory("rec"), c_(c) {}
  std::unique_ptr<HLSSolverFactory> clone() const override { return std::make_unique<RecHlsFactory>(*this); }
  std::unique_ptr<HBase> createSolver() const override { return std::make_unique<RecHls>(c_); }
  std::shared_ptr<HCtrl> c_;
};
} // namespace rec
