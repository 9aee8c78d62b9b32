// Least-square solvers that record the problem they are given instead of solving it (the vendor QP
// solvers are not available here). Their storage follows the conventions of the real back-ends:
// 0: QLD (stacked [eq;ineq], >=, opposite rhs), 1: Quadprog (<=, as given, bounds inside the rhs vector),
// 2: LSSOL (one double-sided matrix, bounds and constraints in the same l,u vectors).
#pragma once
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/abstract/LinearConstraint.h>
#include <tvm/defs.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>

#include <Eigen/Dense>

namespace rec
{
using tvm::LinearConstraintPtr;
using tvm::MatrixRef;
using tvm::Range;
using tvm::RangePtr;
using tvm::SolvingRequirementsPtr;
using tvm::VectorRef;
using tvm::constraint::RHS;
using tvm::constraint::Type;
using tvm::scheme::internal::AssignmentTarget;
using Base = tvm::solver::abstract::LeastSquareSolver;

/** What a solver was asked to solve: l <= C x <= u, xl <= x <= xu, min |A x - b|^2 (or |x|^2). */
struct Recorded
{
  tvm::VariableVector vars;
  Eigen::MatrixXd C;
  Eigen::VectorXd l, u;
  std::vector<int> eq; // 1 when the row was handed over as an equality
  Eigen::MatrixXd A;
  Eigen::VectorXd b, xl, xu;
  bool minNorm = false;
  bool inconsistent = false;
};

/** Shared between the driver and the solvers of one scheme. */
struct Ctrl
{
  int variant = 0;
  Recorded last;
  int solves = 0;
  int created = 0;
  std::function<Eigen::VectorXd(const Recorded &)> answer;
  bool success = true;
};

class RecSolver : public Base
{
public:
  RecSolver(std::shared_ptr<Ctrl> c) : Base(false), c_(c), v_(c->variant) { ++c_->created; }

protected:
  using Seg = Eigen::VectorBlock<Eigen::VectorXd>;
  static constexpr double big_ = tvm::constant::big_number;
  int n() const { return variables().totalSize(); }

  void initializeBuild_(int nObj, int nEq, int nIneq, bool useBounds) override
  {
    autoMinNorm_ = false;
    resize_(nObj, nEq, nIneq, useBounds);
  }
  ImpactFromChanges resize_(int nObj, int nEq, int nIneq, bool useBounds) override
  {
    ImpactFromChanges i;
    const int m = nEq + nIneq, n = this->n();
    i.objectives_ = ImpactFromChanges::willReallocate(A_, nObj, n);
    A_.resize(nObj, n);
    A_.setZero();
    b_.resize(nObj);
    if(v_ == 2) b_.setZero();
    if(v_ == 0)
    {
      i.equalityConstraints_ = ImpactFromChanges::willReallocate(C_, m, n);
      C_.resize(m, n);
      C_.setZero();
      d_.resize(m);
      i.bounds_ = ImpactFromChanges::willReallocate(l_, n);
      l_ = Eigen::VectorXd::Constant(n, -big_);
      u_ = Eigen::VectorXd::Constant(n, +big_);
      i.inequalityConstraints_ = i.equalityConstraints_;
    }
    else if(v_ == 1)
    {
      const int nb = useBounds ? n : 0;
      i.equalityConstraints_ = ImpactFromChanges::willReallocate(C_, m + 2 * nb, n);
      C_.resize(m + 2 * nb, n);
      C_.setZero();
      d_.resize(m + 2 * nb);
      if(useBounds)
      {
        C_.middleRows(m, n).diagonal().setConstant(-1);
        C_.bottomRows(n).diagonal().setConstant(1);
        d_.segment(m, n).setConstant(-big_);
        d_.segment(m + n, n).setConstant(big_);
      }
      nb_ = nb;
      i.inequalityConstraints_ = i.bounds_ = i.equalityConstraints_;
    }
    else
    {
      i.equalityConstraints_ = ImpactFromChanges::willReallocate(C_, m, n);
      C_.resize(m, n);
      C_.setZero();
      i.bounds_ = ImpactFromChanges::willReallocate(l_, m + n);
      l_ = Eigen::VectorXd::Constant(m + n, -big_);
      u_ = Eigen::VectorXd::Constant(m + n, +big_);
      i.inequalityConstraints_ = i.equalityConstraints_;
      i.bounds_ = i.bounds_ || i.inequalityConstraints_;
    }
    mEq_ = nEq;
    mIneq_ = nIneq;
    return i;
  }
  // views on the storage, by kind
  MatrixRef Ceq() { return C_; }
  MatrixRef Cineq() { if(v_ == 2) return C_; return C_.middleRows(mEq_, mIneq_); }
  VectorRef dIneq() { return d_.segment(mEq_, mIneq_); }
  VectorRef xl() { if(v_ == 1) return d_.segment(mEq_ + mIneq_, nb_); return l_; }
  VectorRef xu() { if(v_ == 1) return d_.segment(mEq_ + mIneq_ + nb_, nb_); return u_; }
  VectorRef cl() { return l_.tail(mEq_ + mIneq_); }
  VectorRef cu() { return u_.tail(mEq_ + mIneq_); }

  void addBound_(LinearConstraintPtr bound, RangePtr range, bool first) override
  {
    AssignmentTarget t(range, xl(), xu());
    addAssignement(bound, t, bound->variables()[0], first);
  }
  void addEqualityConstraint_(LinearConstraintPtr c) override
  {
    RangePtr r = std::make_shared<Range>(nextEqualityConstraintRange_(*c));
    if(v_ == 2)
      addAssignement(c, nullptr, AssignmentTarget(r, C_, cl(), cu(), RHS::AS_GIVEN), variables(), substitutions());
    else
      addAssignement(c, nullptr, AssignmentTarget(r, C_, d_, Type::EQUAL, v_ == 0 ? RHS::OPPOSITE : RHS::AS_GIVEN), variables(), substitutions());
  }
  void addIneqalityConstraint_(LinearConstraintPtr c) override
  {
    RangePtr r = std::make_shared<Range>(nextInequalityConstraintRange_(*c));
    if(v_ == 2)
      addAssignement(c, nullptr, AssignmentTarget(r, C_, cl(), cu(), RHS::AS_GIVEN), variables(), substitutions());
    else if(v_ == 0)
      addAssignement(c, nullptr, AssignmentTarget(r, Cineq(), dIneq(), Type::GREATER_THAN, RHS::OPPOSITE), variables(), substitutions());
    else
      addAssignement(c, nullptr, AssignmentTarget(r, Cineq(), dIneq(), Type::LOWER_THAN, RHS::AS_GIVEN), variables(), substitutions());
  }
  RHS objRhs() const { return v_ == 2 ? RHS::AS_GIVEN : RHS::OPPOSITE; }
  void addObjective_(LinearConstraintPtr c, SolvingRequirementsPtr req, double w) override
  {
    RangePtr r = std::make_shared<Range>(nextObjectiveRange_(*c));
    addAssignement(c, req, AssignmentTarget(r, A_, b_, Type::EQUAL, objRhs()), variables(), substitutions(), w);
  }
  void setMinimumNorm_() override { autoMinNorm_ = true; }
  void resetBounds_() override
  {
    if(v_ == 2) { l_.head(n()).setConstant(-big_); u_.head(n()).setConstant(big_); }
    else { xl().setConstant(-big_); xu().setConstant(big_); }
  }
  void preAssignmentProcess_() override { if(v_ != 0 && !autoMinNorm_) A_.setZero(); }
  bool handleDoubleSidedConstraint_() const override { return v_ == 2; }
  Range nextEqualityConstraintRange_(const tvm::constraint::abstract::LinearConstraint & c) const override
  { return {v_ == 2 ? eqSize_ + ineqSize_ : eqSize_, c.size()}; }
  Range nextInequalityConstraintRange_(const tvm::constraint::abstract::LinearConstraint & c) const override
  { return {v_ == 2 ? eqSize_ + ineqSize_ : ineqSize_, constraintSize(c)}; }
  Range nextObjectiveRange_(const tvm::constraint::abstract::LinearConstraint & c) const override { return {objSize_, c.size()}; }
  void removeBounds_(const Range &) override {}
  void updateEqualityTargetData(AssignmentTarget & t) override { if(v_ == 2) t.changeData(C_, cl(), cu()); else t.changeData(MatrixRef(C_), d_); }
  void updateInequalityTargetData(AssignmentTarget & t) override { if(v_ == 2) t.changeData(C_, cl(), cu()); else t.changeData(Cineq(), dIneq()); }
  void updateBoundTargetData(AssignmentTarget & t) override { t.changeData(xl(), xu()); }
  void updateObjectiveTargetData(AssignmentTarget & t) override { t.changeData(MatrixRef(A_), b_); }
  void applyImpactLogic(ImpactFromChanges & i) override
  {
    if(i.equalityConstraints_) i.inequalityConstraints_ = true;
    if(v_ == 1 && i.inequalityConstraints_) i.bounds_ = true;
    if(v_ == 2 && i.inequalityConstraints_) i.equalityConstraints_ = true;
  }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}

  bool solve_() override
  {
    ++c_->solves;
    Recorded r;
    const int n = this->n(), m = mEq_ + mIneq_;
    r.vars = variables();
    r.inconsistent = eqSize_ != nEq_ || ineqSize_ != nIneq_ || (!autoMinNorm_ && (objSize_ != nObj_ || A_.rows() != nObj_)) || mEq_ != nEq_ || mIneq_ != nIneq_ || A_.cols() != n || C_.cols() != n;
    r.C = C_.topRows(m);
    r.l = Eigen::VectorXd::Constant(m, -big_);
    r.u = Eigen::VectorXd::Constant(m, big_);
    r.eq.assign(static_cast<size_t>(m), 0);
    for(int k = 0; k < m; ++k)
    {
      if(v_ == 2) { r.l(k) = cl()(k); r.u(k) = cu()(k); }
      else if(k < mEq_) { r.l(k) = r.u(k) = v_ == 0 ? -d_(k) : d_(k); }
      else if(v_ == 0) r.l(k) = -d_(k);
      else r.u(k) = d_(k);
      r.eq[static_cast<size_t>(k)] = r.l(k) == r.u(k);
    }
    r.minNorm = autoMinNorm_;
    if(!autoMinNorm_) { r.A = A_; r.b = v_ == 2 ? b_ : Eigen::VectorXd(-b_); }
    else { r.A = Eigen::MatrixXd::Identity(n, n); r.b = Eigen::VectorXd::Zero(n); }
    r.xl = Eigen::VectorXd::Constant(n, -big_);
    r.xu = Eigen::VectorXd::Constant(n, big_);
    if(v_ != 1 || nb_ > 0) { r.xl = xl().head(n); r.xu = xu().head(n); }
    c_->last = r;
    if(v_ == 2 && !autoMinNorm_) { A_.setConstant(77); } // the real solver overwrites it
    result_v_ = c_->answer ? c_->answer(r) : Eigen::VectorXd::Zero(n);
    return c_->success;
  }
  const Eigen::VectorXd & result_() const override { return result_v_; }

  std::shared_ptr<Ctrl> c_;
  int v_;
  Eigen::MatrixXd A_, C_;
  Eigen::VectorXd b_, d_, l_, u_, result_v_;
  int mEq_ = 0, mIneq_ = 0, nb_ = 0;
  bool autoMinNorm_ = false;
};

class RecFactory : public tvm::solver::abstract::LSSolverFactory
{
public:
  RecFactory(std::shared_ptr<Ctrl> c) : LSSolverFactory("rec"), c_(c) {}
  std::unique_ptr<LSSolverFactory> clone() const override { return std::make_unique<RecFactory>(*this); }
  std::unique_ptr<Base> createSolver() const override { return std::make_unique<RecSolver>(c_); }
  std::shared_ptr<Ctrl> c_;
};
} // namespace rec
