// Support of the generated programs that build affine expressions (see checks/C15.py).
#pragma once
#include "mbv.h"
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/ProtoTask.h>
#include <tvm/utils/graph.h>

using tvm::VariablePtr;
using BLF = tvm::function::BasicLinearFunction;
struct D // the numbers of a program
{
  std::vector<Eigen::MatrixXd> M;
  std::vector<Eigen::VectorXd> V;
  std::vector<double> S;
};
struct X { std::vector<VariablePtr> x; };
// a variable returned by value, as accessors do
inline VariablePtr tmp(const VariablePtr & x) { return x; }
struct Made
{
  std::shared_ptr<tvm::function::abstract::LinearFunction> f;
  int type = 0;
  Eigen::VectorXd l, u, e;
  std::shared_ptr<tvm::Task> task;
};
inline Made made(std::shared_ptr<tvm::function::abstract::LinearFunction> f) { Made m; m.f = f; return m; }
inline void own(Made & m, const tvm::FunctionPtr & f)
{
  m.f = std::dynamic_pointer_cast<tvm::function::abstract::LinearFunction>(f);
  if(!m.f) throw std::logic_error("the function of the task is not linear");
}
template<tvm::constraint::Type T, typename F>
Made made(const tvm::utils::ProtoTaskCommon<T, F> & p)
{
  using tvm::constraint::Type;
  Made m;
  tvm::FunctionPtr f = p.f_;
  own(m, f);
  m.type = T == Type::EQUAL ? 1 : T == Type::GREATER_THAN ? 2 : T == Type::LOWER_THAN ? 3 : 4;
  if constexpr(T == Type::DOUBLE_SIDED) { m.l = p.l_.toVector(f->size()); m.u = p.u_.toVector(f->size()); }
  else if constexpr(T == Type::EQUAL) m.e = p.rhs_.toVector(f->size());
  else if constexpr(T == Type::GREATER_THAN) m.l = p.rhs_.toVector(f->size());
  else m.u = p.rhs_.toVector(f->size());
  m.task = std::make_shared<tvm::Task>(tvm::utils::ProtoTask<T>(p), tvm::task_dynamics::None());
  return m;
}
using Prog = Made (*)(const D &, const X &);
std::map<int, Prog> & programs();
struct Reg { Reg(int k, Prog p) { programs()[k] = p; } };
