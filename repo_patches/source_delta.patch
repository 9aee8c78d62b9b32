From 5f142f93778d974d84cdc083a4b51d807479ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:19 +0000
Subject: [PATCH 01/46] fix: DependencyGraph::order and groupedOrder detect
 cycles unreachable from the roots

A cycle that could not be reached from a root, in a graph having at least one
root, was not detected: its nodes were silently missing from the result.
---
 src/graph/DependencyGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..e3b1b7f 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,12 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // Nodes that cannot be reached from any root are in (or only reachable from) a cycle
+  if(ret.first.size() != n)
+  {
+    throw std::logic_error("[DependencyGraph::Order] The graph contains a cycle");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From 9371f89f0cdd7637fc98794364a9b4d10b12cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 02/46] fix: assignments own the sub-variables of the partition
 they map to

The partition of variables with their sub-variables creates temporary
sub-variables. MatrixAssignment kept a raw pointer to them, which dangled when
the mapping was updated after a change of variables.
---
 include/tvm/scheme/internal/Assignment.h       |  4 ++--
 include/tvm/scheme/internal/MatrixAssignment.h |  2 +-
 src/scheme/Assignment.cpp                      | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.h b/include/tvm/scheme/internal/Assignment.h
index 6560ae2..8735922 100644
--- a/include/tvm/scheme/internal/Assignment.h
+++ b/include/tvm/scheme/internal/Assignment.h
@@ -130,7 +130,7 @@ private:
    * to variable \p x to the block of matrix described by \p M and \p range.
    * \p flip indicates a sign change if \p true.
    */
-  void addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip);
+  void addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip);
 
   /** Creates the assignments due to substituting the variable \p x by the
    * linear expression given by \p sub. The target is given by \p M.
@@ -194,7 +194,7 @@ private:
    * and \p range. The variable \p x is simply stored in the corresponding
    * \p MatrixAssignment.
    */
-  void addZeroAssignment(Variable & x, MatrixFunction M, const Range & range);
+  void addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range);
 
   /** Calls addAssignments(const VariableVector& variables, MatrixFunction M,
    * RHSFunction f1, VectorFunction v1, RHSFunction f2, VectorFunction v2,
diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..1f3347c 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x;
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..38f3f9a 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -411,13 +411,13 @@ void Assignment::processRequirements()
   }
 }
 
-void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip)
+void Assignment::addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip)
 {
-  MatrixConstRef from = source_->jacobian(x);
+  MatrixConstRef from = source_->jacobian(*x);
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -459,7 +459,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -508,12 +508,12 @@ void Assignment::addVectorSubstitutionAssignments(const function::BasicLinearFun
   }
 }
 
-void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range & range)
+void Assignment::addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range)
 {
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
@@ -570,7 +570,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     if(!xc.contains(*x))
     {
       Range cols = x->getMappingIn(variables);
-      addZeroAssignment(*x, M, cols);
+      addZeroAssignment(x, M, cols);
     }
   }
 
@@ -593,7 +593,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     else // usual case
     {
       Range cols = x->getMappingIn(variables);
-      addMatrixAssignment(*x, M, cols, flip);
+      addMatrixAssignment(x, M, cols, flip);
     }
   }
 }
-- 
2.43.0


From d5437eaf9341081b24b460c8febf6ee045152767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:28 +0000
Subject: [PATCH 03/46] fix: do not update the target of bound assignments
 writing to internal temporaries

onUpdatedTarget called a null member pointer for bounds with a (non identity)
diagonal matrix when the solver data were updated incrementally.
---
 src/scheme/Assignment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 38f3f9a..1e17a0d 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,11 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    // no target vector: the assignment writes to an internal temporary
+    if(a.getTargetVector)
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From 6c4e97e79daf7200cdd8dfd988f7d4f6e8658821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:28 +0000
Subject: [PATCH 04/46] fix: WeightedLeastSquares accepts the priority levels
 it emulates by weights

Levels above 1 were announced as handled by scalarization, but checking a
constraint at such a level threw std::out_of_range.
---
 src/scheme/WeightedLeastSquares.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..6d607d1 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -18,9 +18,10 @@ namespace scheme
 using namespace internal;
 using VET = requirements::ViolationEvaluationType;
 
-const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {2,
-                                                                    {{0, {true, {VET::L2}}}, {1, {false, {VET::L2}}}},
-                                                                    true};
+const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {
+    2,
+    {{0, {true, {VET::L2}}}, {1, {false, {VET::L2}}}, {GeneralLevel, {false, {VET::L2}}}},
+    true};
 
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
-- 
2.43.0


From f2cdf34b04bfd0e75993a26f03095f903033e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 05/46] fix: solving a problem whose tasks were all removed
 does not read a stale solver result

The solver is not called in that case, and its previous result does not have
the size of the (empty) vector of variables.
---
 src/scheme/HierarchicalLeastSquares.cpp | 6 +++++-
 src/scheme/WeightedLeastSquares.cpp     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..6a62a3f 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -214,7 +214,11 @@ void HierarchicalLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::H
 }
 
 void HierarchicalLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables, the solver was not called and its result is not relevant.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 6d607d1..ed4923e 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -326,7 +326,11 @@ void WeightedLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::Least
 }
 
 void WeightedLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables, the solver was not called and its result is not relevant.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
-- 
2.43.0


From d6ac51a358c105ea75c574c0663b697bfde7f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:50 +0000
Subject: [PATCH 06/46] fix: WeightedLeastSquares with auto damping

finalizeBuild aborted because setMinimumNorm does not count its rows, and the
damping was neither removed, resized nor restored when tasks were added or
removed: rebuild the solver data in this case.
---
 src/scheme/WeightedLeastSquares.cpp | 6 +++++-
 src/solver/LeastSquareSolver.cpp    | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index ed4923e..0f28bfe 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -49,9 +49,13 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     Memory * memory = static_cast<Memory *>(data);
 
     // If some events require to rebuild the data, we skip all other events.
+    // This is the case for task events when using auto damping, as they can change whether it
+    // is active or not, and its size.
     for(const auto & e : memory->events())
     {
-      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+      bool taskEvent = e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval;
+      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+         || (taskEvent && options_.autoDamping().value()))
       {
         resetComputationData(problem, memory);
         return;
diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..98004ad 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_;
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From 613a6e848c12d1d514b861db584153b4a560f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 07/46] fix: update the weights once the solver data are
 resized and remapped

Changing a default weight rebuilds the assignment, on the new variables but on
the data not resized yet when variables were added at the same time.
---
 src/solver/LeastSquareSolver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 98004ad..b6c6f8a 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -183,7 +183,6 @@ int LeastSquareSolver::constraintSize(const constraint::abstract::LinearConstrai
 
 void LeastSquareSolver::process(const internal::SolverEvents & se)
 {
-  updateWeights(se);
   auto impactRemove = processRemovedConstraints(se);
   bool needMappingUpdate = updateVariables(se);
   auto impactAdd = previewAddedConstraints(se);
@@ -289,6 +288,9 @@ void LeastSquareSolver::process(const internal::SolverEvents & se)
       updateMapping(objectiveToAssignments_);
   }
 
+  // Changing a default weight rebuilds the assignment: the target and the mapping need to be up-to-date.
+  updateWeights(se);
+
   processAddedConstraints(se);
 }
 
@@ -301,9 +303,8 @@ void LeastSquareSolver::updateWeights(const internal::SolverEvents & se)
     auto [c, scalar, vector] = e;
 
     // We might have change of weights on constraints that were not added yet (because process of
-    // of weight arise before processing added constraints - if we'd process the weight after, we
-    // could have change of weight on removed constraints). Therefore we need to ignore constraints
-    // that were not found in the map.
+    // of weight arise before processing added constraints) or on constraints that were removed.
+    // Therefore we need to ignore constraints that were not found in the map.
     auto it = objectiveToAssignments_.find(c);
     if(it == objectiveToAssignments_.end())
       continue;
-- 
2.43.0


From ec21ccd5eb3bf34cda98a227e57e507a1bab5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:05 +0000
Subject: [PATCH 08/46] fix: take a change of scalar weight into account for
 tasks with an anisotropic weight

The product of both weights was computed again only when the anisotropic weight
changed.
---
 src/scheme/Assignment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 1e17a0d..9a52cc2 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -100,7 +100,8 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  // The anisotropic weight used by the assignments includes the scalar one.
+  if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != target_.size())
-- 
2.43.0


From d830f5db4836dfa55cfb66c6d7360940037133cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:16 +0000
Subject: [PATCH 09/46] fix: update the targets when the solver matrices change
 shape at constant size

A matrix going for example from 3x4 to 4x3 keeps its memory, but the blocks the
assignments write to, and the vectors that go with it, do change.
---
 include/tvm/solver/abstract/LeastSquareSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/solver/abstract/LeastSquareSolver.h b/include/tvm/solver/abstract/LeastSquareSolver.h
index a153a99..46ebdf1 100644
--- a/include/tvm/solver/abstract/LeastSquareSolver.h
+++ b/include/tvm/solver/abstract/LeastSquareSolver.h
@@ -239,7 +239,7 @@ template<typename Derived>
 inline bool LeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                  int rows,
                                                                  int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
-- 
2.43.0


From 55162e8a02ff7d40a656b98ad8192fecec64d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:12 +0000
Subject: [PATCH 10/46] fix: rebuild the solver data after an interrupted
 update of WeightedLeastSquares

A refused event (weight change at priority 0, task the scheme can not
handle) left the other events of the batch lost, and a task refused by its
abilities was already registered in the computation data.
---
 include/tvm/scheme/WeightedLeastSquares.h |  3 +++
 src/scheme/WeightedLeastSquares.cpp       | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..d9b7ab0 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -41,6 +41,9 @@ private:
 
     int maxp = 0;
 
+    /** True if a previous update or build was interrupted by an exception.*/
+    bool needRebuild = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 0f28bfe..765f5ff 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -43,11 +43,16 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 {
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
+  Memory * memory = static_cast<Memory *>(data);
 
-  if(data->hasEvents())
+  if(memory->needRebuild)
   {
-    Memory * memory = static_cast<Memory *>(data);
+    resetComputationData(problem, memory);
+    return;
+  }
 
+  if(data->hasEvents())
+  {
     // If some events require to rebuild the data, we skip all other events.
     // This is the case for task events when using auto damping, as they can change whether it
     // is active or not, and its size.
@@ -61,6 +66,8 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
         return;
       }
     }
+    // If an event can not be handled, the ones already read are lost.
+    memory->needRebuild = true;
     while(memory->hasEvents())
     {
       auto e = memory->popEvent();
@@ -97,6 +104,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
+    memory->needRebuild = false;
   }
 }
 
@@ -111,8 +119,10 @@ std::unique_ptr<WeightedLeastSquares::Memory> WeightedLeastSquares::createComput
 
 void WeightedLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->needRebuild = true;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->needRebuild = false;
 }
 
 void WeightedLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
-- 
2.43.0


From 77b57477cf095520d41f36b3a7d5f46a3f0cb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 11/46] fix: HierarchicalLeastSquares rebuilds its data upon
 any event

Task additions, removals and weight changes were refused by an exception
after the event had been read, so that the next solve silently used the
old problem.
---
 include/tvm/scheme/HierarchicalLeastSquares.h |  3 +
 src/scheme/HierarchicalLeastSquares.cpp       | 56 ++++---------------
 2 files changed, 14 insertions(+), 45 deletions(-)

diff --git a/include/tvm/scheme/HierarchicalLeastSquares.h b/include/tvm/scheme/HierarchicalLeastSquares.h
index dace5ea..0d91d4b 100644
--- a/include/tvm/scheme/HierarchicalLeastSquares.h
+++ b/include/tvm/scheme/HierarchicalLeastSquares.h
@@ -33,6 +33,9 @@ private:
 
     std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver;
 
+    /** True if a previous build was interrupted by an exception.*/
+    bool needRebuild = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 6a62a3f..7b63cbb 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -40,53 +40,11 @@ bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
 void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlProblem & problem,
                                                       internal::ProblemComputationData * data) const
 {
-  using EventType = ProblemDefinitionEvent::Type;
-  solver::internal::SolverEvents se;
-
-  if(!data->hasEvents())
-  {
-    return;
-  }
-
   Memory * memory = static_cast<Memory *>(data);
 
-  // If some events require to rebuild the data, we skip all other events.
-  for(const auto & e : memory->events())
-  {
-    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
-    {
-      resetComputationData(problem, memory);
-      return;
-    }
-  }
-  while(memory->hasEvents())
-  {
-    auto e = memory->popEvent();
-    switch(e.type())
-    {
-      case EventType::WeightChange: {
-        const auto & c = problem.constraintWithRequirements(e.typedEmitter<EventType::WeightChange>());
-        se.addScalarWeightEvent(c.constraint.get());
-      }
-      break;
-      case EventType::AnisotropicWeightChange: {
-        const auto & c = problem.constraintWithRequirements(e.typedEmitter<EventType::AnisotropicWeightChange>());
-        se.addVectorWeightEvent(c.constraint.get());
-      }
-      break;
-      case EventType::TaskAddition:
-        addTask(problem, memory, e.typedEmitter<EventType::TaskAddition>(), se);
-        break;
-      case EventType::TaskRemoval:
-        removeTask(problem, memory, e.typedEmitter<EventType::TaskRemoval>(), se);
-        break;
-      default:
-        throw std::runtime_error("[HierarchicalLeastSquares::updateComputationData_] Unimplemented event handling.");
-    }
-  }
-
-  memory->variables(); // update variable vector if needed
-  memory->solver->process(se);
+  // Incremental changes are not implemented for this scheme: any event leads to rebuilding the data.
+  if(data->hasEvents() || memory->needRebuild)
+    resetComputationData(problem, memory);
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
@@ -100,8 +58,10 @@ std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::crea
 
 void HierarchicalLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->needRebuild = true;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->needRebuild = false;
 }
 
 void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
@@ -162,6 +122,12 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
 
   if(options_.autoDamping().value())
   {
+    // The bounds are at the first level, the damping needs to be after.
+    if(nEq.empty() && !bounds.empty())
+    {
+      nEq.push_back(0);
+      nIneq.push_back(0);
+    }
     nEq.push_back(memory->variables().totalSize());
     nIneq.push_back(0);
   }
-- 
2.43.0


From 4c9d5b1a3e64b67f3d2537c8d88cde2cd699a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 12/46] fix: HierarchicalLeastSquareSolver counts its rows from
 zero at each build

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..56190a3 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -71,8 +71,8 @@ void HierarchicalLeastSquareSolver::startBuild(const VariableVector & x,
   initializeBuild_(nEq, nIneq, useBounds);
   nEq_ = nEq;
   nIneq_ = nIneq;
-  eqSize_.resize(nEq_.size(), 0);
-  ineqSize_.resize(nEq_.size(), 0);
+  eqSize_.assign(nEq_.size(), 0);
+  ineqSize_.assign(nEq_.size(), 0);
   useBounds_ = useBounds;
 }
 
-- 
2.43.0


From 088bed954ade46d025bfdb2d7bed7789f5d054aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:12 +0000
Subject: [PATCH 13/46] fix: assigning a Weight or AnisotropicWeight to a
 requirement runs its callbacks

Only the assignment of a raw value did, so that a change such as
tr->requirements.weight() = Weight(2.) was not seen by the problems.
---
 include/tvm/requirements/abstract/SingleSolvingRequirement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..089cdd3 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,6 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
-- 
2.43.0


From c24cc0e051cab6031de1d41044ba8c997c79abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:12 +0000
Subject: [PATCH 14/46] fix: ControlProblem::remove does not use a task after
 having released it

---
 src/ControlProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ControlProblem.cpp b/src/ControlProblem.cpp
index e263e3f..ceec35e 100644
--- a/src/ControlProblem.cpp
+++ b/src/ControlProblem.cpp
@@ -31,6 +31,7 @@ void ControlProblem::remove(const TaskWithRequirements & tr)
   {
     return;
   }
+  TaskWithRequirementsPtr keepAlive = *it; // the problem might be the last owner of tr
   tr_.erase(it);
   notify(scheme::internal::ProblemDefinitionEvent(scheme::internal::ProblemDefinitionEvent::Type::TaskRemoval, tr));
   callbackTokens_.erase(&tr);
-- 
2.43.0


From ca583eb7707740b489ee153da330e951203b19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:12 +0000
Subject: [PATCH 15/46] fix: a task refused by LinearizedControlProblem::add or
 remove leaves the problem unchanged

---
 src/LinearizedControlProblem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..a1f5e16 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -25,8 +25,6 @@ TaskWithRequirementsPtr LinearizedControlProblem::add(const Task & task, const r
 
 void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 {
-  ControlProblem::add(tr);
-
   // FIXME A lot of work can be done here based on the properties of the task's jacobian.
   // In particular, we could detect bounds, pairs of tasks forming a double-sided constraints...
   LinearConstraintWithRequirements lcr;
@@ -35,6 +33,9 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
   // lcr.requirements points to and doesn't outlive tr->requirements.
   lcr.requirements = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>(tr, &tr->requirements);
   lcr.bound = scheme::internal::isBound(lcr.constraint);
+
+  // Only after this point, because building the constraint can fail.
+  ControlProblem::add(tr);
   constraints_[tr.get()] = lcr;
 
   using CstrOutput = internal::FirstOrderProvider::Output;
@@ -59,13 +60,14 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
     return;
   }
+  // First, because this can fail.
   removeSubstitutionFor(*it->second.constraint);
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From 0eb57952ab9406ec8bd5d26a9aa692505ff9ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 16/46] fix: Substitutions::remove finds the substitution given
 by the user

The comparison was made on the address, while the substitutions are stored
by copy, so that nothing was ever removed.
---
 src/hint/Substitutions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..9b6e6b7 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -45,7 +45,10 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  // Substitutions are stored by copy: we can not rely on the address of s.
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) {
+    return e.constraints() == s.constraints() && e.variables() == s.variables();
+  });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From 28a85e1d97dd5142c9ecad58855f43d1ed619a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 17/46] fix: Substitutions::finalize forgets the previous
 additional variables

---
 src/hint/Substitutions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 9b6e6b7..3350bec 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -93,6 +93,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
-- 
2.43.0


From 132e6dbfa1c628ab803ed2e466b529df408b906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 18/46] fix: creating the derivative of a subvariable keeps the
 value of its supervariable's derivative

---
 src/Variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..38531c4 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,9 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  // The memory of a subvariable is that of its supervariable: it is already initialized and might be in use.
+  if(!isSubvariable())
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 1c4f8e3d7d8de447835a79bbc289c91f637165fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 19/46] fix: a handle obtained from a subvariable or its
 derivatives keeps the subvariable alive

---
 include/tvm/Variable.h | 11 ++++++-----
 src/Variable.cpp       | 14 ++------------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/include/tvm/Variable.h b/include/tvm/Variable.h
index 74e0c41..122b053 100644
--- a/include/tvm/Variable.h
+++ b/include/tvm/Variable.h
@@ -40,8 +40,9 @@ VariablePtr TVM_DLLAPI dot(VariablePtr var, int ndiff = 1, bool autoName = false
  *
  * \internal A note on memory management for variables: Variable instances can
  * only be created through factory function returning shared_ptr (unique_ptr for
- * initial variables created from Space). Derived variables and subvariables
- * share the same reference counter, through the aliasing mechanism of shared_ptr.
+ * initial variables created from Space). Derived variables share the reference
+ * counter of their base primitive, through the aliasing mechanism of shared_ptr,
+ * and a subvariable holds a reference to its supervariable.
  * This ensure that the lifetime of a variable, and in particular the original
  * variable always exceed that of a variable constructed from it.
  */
@@ -203,9 +204,9 @@ public:
 
   /** Overload of enable_shared_from_this::shared_from_this, for technical purpose.
    *
-   * \internal This is necessary because all derivative and subvariables are
-   * sharing the same ref counter as the primitive supervariable, while the
-   * default shared_from_this use the variable own (and unused) ref counter.
+   * \internal This is necessary because all derivatives are sharing the same
+   * ref counter as their base primitive, while the default shared_from_this
+   * use the variable own (and unused) ref counter.
    */
   [[nodiscard]] VariablePtr shared_from_this();
 
diff --git a/src/Variable.cpp b/src/Variable.cpp
index 38531c4..4865706 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -268,19 +268,9 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 VariablePtr Variable::shared_from_this()
 {
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From db290c30b983c17a168ac3f6986e9b25f836e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 20/46] fix: VariableCountingVector keeps the variables it
 counts alive

---
 include/tvm/internal/VariableCountingVector.h | 1 +
 src/internal/VariableCountingVector.cpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/tvm/internal/VariableCountingVector.h b/include/tvm/internal/VariableCountingVector.h
index 1ab100b..91d3527 100644
--- a/include/tvm/internal/VariableCountingVector.h
+++ b/include/tvm/internal/VariableCountingVector.h
@@ -73,6 +73,7 @@ public:
 private:
   struct SpaceRangeCounting
   {
+    VariablePtr superVariable_; // The variable whose parts are counted. Keeps it alive while it is used as a key.
     tvm::internal::RangeCounting mSize_;
     tvm::internal::RangeCounting rSize_;
     tvm::internal::RangeCounting tSize_;
diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..cd70555 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -14,6 +14,7 @@ bool VariableCountingVector::add(VariablePtr v)
   const Space & start = v->spaceShift();
   const Space & dim = v->space();
   auto & counterPair = count_.insert({s.get(), {SpaceRangeCounting{}, 0}}).first->second;
+  counterPair.first.superVariable_ = s;
   // bool change = counterPair.first.add(v->subvariableRange());
   bool change = counterPair.first.add(start, dim);
   if(change)
-- 
2.43.0


From f722f73577165f3d0df8b41e0c6832eed902fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 21/46] fix: VariableCountingVector with split does not return
 outdated parts

---
 src/internal/VariableCountingVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index cd70555..e24e02c 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -16,7 +16,8 @@ bool VariableCountingVector::add(VariablePtr v)
   auto & counterPair = count_.insert({s.get(), {SpaceRangeCounting{}, 0}}).first->second;
   counterPair.first.superVariable_ = s;
   // bool change = counterPair.first.add(v->subvariableRange());
-  bool change = counterPair.first.add(start, dim);
+  // With split_, the parts can change even when their union does not.
+  bool change = counterPair.first.add(start, dim) || (split_ && dim.size() > 0);
   if(change)
     ++counterPair.second;
   upToDate_ = upToDate_ && !change;
@@ -35,7 +36,7 @@ bool VariableCountingVector::remove(const Variable & v)
   const Space & start = v.spaceShift();
   const Space & dim = v.space();
   auto & counterPair = count_.at(s.get());
-  bool change = counterPair.first.remove(start, dim);
+  bool change = counterPair.first.remove(start, dim) || (split_ && dim.size() > 0);
   if(change)
   {
     if(counterPair.first.empty())
-- 
2.43.0


From a81f03d857f6c937d8f00baa5d48b423d7b25a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 22/46] fix: VariableCountingVector::remove(VariableVector)
 changes nothing when it is refused

---
 src/internal/VariableCountingVector.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index e24e02c..6c31451 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -56,8 +56,18 @@ bool VariableCountingVector::remove(const Variable & v)
 
 void VariableCountingVector::remove(const VariableVector & v)
 {
-  for(const auto & x : v)
-    remove(*x);
+  auto backup = count_;
+  try
+  {
+    for(const auto & x : v)
+      remove(*x);
+  }
+  catch(...)
+  {
+    // refused: nothing must have changed
+    count_ = std::move(backup);
+    throw;
+  }
 }
 
 void VariableCountingVector::clear()
-- 
2.43.0


From a22366345369cbd4c4f5ff23ae64f72ac7a5aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 23/46] fix: VariableVectorPartition accepts empty containers
 and empty variables

---
 .../tvm/internal/VariableVectorPartition.h    | 53 ++++++++-----------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/include/tvm/internal/VariableVectorPartition.h b/include/tvm/internal/VariableVectorPartition.h
index 1515fd4..feb9990 100644
--- a/include/tvm/internal/VariableVectorPartition.h
+++ b/include/tvm/internal/VariableVectorPartition.h
@@ -69,22 +69,7 @@ public:
   {
   public:
     iterator(const VarVector & var, const VariableVector & p, int iv) : ip_(0), iv_(iv), var_(var), partition_(p)
-    {
-      if(iv == p.numberOfVariables()) // end
-      {
-        ip_ = iv;
-      }
-      else
-      {
-        const auto & v = var[iv];
-        for(; ip_ < p.numberOfVariables(); ++ip_)
-        {
-          if(v->contains(*p[ip_]))
-            return;
-        }
-        throw std::runtime_error("Invalid partition");
-      }
-    }
+    { moveToFirstPart(); }
 
     iterator & operator++()
     {
@@ -98,19 +83,8 @@ public:
         assert(partition_[ip_ - 1]->subvariableRange().end() == var_[iv_]->subvariableRange().end()
                && "End of variable in partition is not the same as the end of variable in the reference vector.");
         ++iv_;
-        if(iv_ == static_cast<int>(var_.end() - var_.begin()))
-        {
-          // return end
-          ip_ = partition_.numberOfVariables();
-          return *this;
-        }
-        const auto & v = var_[iv_];
-        for(ip_ = 0; ip_ < partition_.numberOfVariables(); ++ip_)
-        {
-          if(v->contains(*partition_[ip_]))
-            return *this;
-        }
-        throw std::runtime_error("Invalid partition");
+        moveToFirstPart();
+        return *this;
       }
     }
 
@@ -123,6 +97,25 @@ public:
     VariablePtr operator*() { return partition_[ip_]; }
 
   private:
+    /** Move to the first part of the first non-empty variable from iv_ on, or to the end if there is none.*/
+    void moveToFirstPart()
+    {
+      const int n = static_cast<int>(var_.end() - var_.begin());
+      while(iv_ < n && var_[iv_]->size() == 0)
+        ++iv_;
+      if(iv_ >= n)
+      {
+        ip_ = partition_.numberOfVariables();
+        return;
+      }
+      for(ip_ = 0; ip_ < partition_.numberOfVariables(); ++ip_)
+      {
+        if(var_[iv_]->contains(*partition_[ip_]))
+          return;
+      }
+      throw std::runtime_error("Invalid partition");
+    }
+
     int ip_;
     int iv_;
     const VarVector & var_;
@@ -130,7 +123,7 @@ public:
   };
 
   iterator begin() { return {var_, partition_, 0}; }
-  iterator end() { return {var_, partition_, partition_.numberOfVariables()}; }
+  iterator end() { return {var_, partition_, static_cast<int>(var_.end() - var_.begin())}; }
 
 private:
   const VarVector & var_;
-- 
2.43.0


From dcb8ae8cb20d267c010c280f42757406e66423cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 24/46] fix: self-assignment of a VariableVector does not clear
 it

---
 src/VariableVector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..ebed2f0 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,6 +14,9 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
+  if(this == &other)
+    return *this;
+
   clear();
   add(other.variables());
   return *this;
-- 
2.43.0


From ada312e1b159b22da3b24526f5b6b25b3f5c2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 25/46] fix: a VariableVector that was moved from is empty and
 usable

---
 include/tvm/VariableVector.h |  6 ++++--
 src/VariableVector.cpp       | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/tvm/VariableVector.h b/include/tvm/VariableVector.h
index 2a8c460..f6087c2 100644
--- a/include/tvm/VariableVector.h
+++ b/include/tvm/VariableVector.h
@@ -58,10 +58,12 @@ public:
 
   /** Copy constructor*/
   VariableVector(const VariableVector & other);
-  VariableVector(VariableVector &&) = default;
+  /** Move constructor. \p other is left empty.*/
+  VariableVector(VariableVector && other);
 
   VariableVector & operator=(const VariableVector & other);
-  VariableVector & operator=(VariableVector &&) = default;
+  /** Move assignment. \p other is left empty.*/
+  VariableVector & operator=(VariableVector && other);
 
   ~VariableVector();
 
diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index ebed2f0..446ba14 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -22,6 +22,25 @@ VariableVector & VariableVector::operator=(const VariableVector & other)
   return *this;
 }
 
+// The mappings cached by the variables refer to the id of the vector: each vector keeps its own id and adds the
+// variables of the other again.
+VariableVector::VariableVector(VariableVector && other) : VariableVector()
+{
+  add(other.variables());
+  other.clear();
+}
+
+VariableVector & VariableVector::operator=(VariableVector && other)
+{
+  if(this == &other)
+    return *this;
+
+  clear();
+  add(other.variables());
+  other.clear();
+  return *this;
+}
+
 VariableVector::~VariableVector() { clear(); }
 
 bool VariableVector::add(VariablePtr v)
-- 
2.43.0


From e097fb01d5f106527b78d2b9875e76f77dbd1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 26/46] fix: an empty variable contains itself and appears only
 once in a VariableVector

---
 src/Variable.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 4865706..b95dd5f 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -178,7 +178,11 @@ Range Variable::tSubvariableRange() const
 }
 
 bool Variable::contains(const Variable & v) const
-{ return superVariable() == v.superVariable() && subvariableRange().contains(v.subvariableRange()); }
+{
+  // The equality is for empty variables.
+  return superVariable() == v.superVariable()
+         && (subvariableRange() == v.subvariableRange() || subvariableRange().contains(v.subvariableRange()));
+}
 
 bool Variable::intersects(const Variable & v) const
 { return superVariable() == v.superVariable() && subvariableRange().intersects(v.subvariableRange()); }
-- 
2.43.0


From a31e22da1fe3cd58ad52b926c29938836fcd3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 27/46] fix: a PairElementToken cannot be paired with itself

---
 include/tvm/internal/PairElementToken.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tvm/internal/PairElementToken.h b/include/tvm/internal/PairElementToken.h
index 04b4760..bdbd113 100644
--- a/include/tvm/internal/PairElementToken.h
+++ b/include/tvm/internal/PairElementToken.h
@@ -100,9 +100,11 @@ public:
       otherPairElement_->notifyDeath();
   }
 
-  /** Pair this with other. Throw if this object is already paired.*/
+  /** Pair this with other. Throw if one of the tokens is already paired or if other is this object.*/
   void pairWith(PairElementToken & other)
   {
+    if(&other == this)
+      throw std::runtime_error("A token cannot be paired with itself.");
     if(isPaired() || other.isPaired())
       throw std::runtime_error("Can only pair if both tokens are unpaired.");
     otherPairElement_ = &other;
-- 
2.43.0


From 45feccd82e23876cbba6ea65ba27a7049fbdb410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 28/46] fix: callbacks can register, unregister or run
 callbacks while they are run

---
 include/tvm/internal/CallbackManager.h | 42 ++++++++++++++++++--------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/tvm/internal/CallbackManager.h b/include/tvm/internal/CallbackManager.h
index 7905652..2f3f70e 100644
--- a/include/tvm/internal/CallbackManager.h
+++ b/include/tvm/internal/CallbackManager.h
@@ -6,7 +6,7 @@
 
 #include <algorithm>
 #include <functional>
-#include <vector>
+#include <list>
 
 namespace tvm::internal
 {
@@ -36,11 +36,28 @@ public:
 
   /** Run all callbacks. Remove the ones for which the token obtained at the
    * registration was destroyed.
+   * A callback can register and unregister callbacks (including itself), and
+   * call this method.
    */
   void run();
 
 private:
-  std::vector<TCPair> callbacks_;
+  /** Keep track of the calls to run in progress and, at the end of the last one,
+   * remove the callbacks that are no more paired.
+   */
+  struct RunGuard
+  {
+    RunGuard(CallbackManager & m) : m_(m) { ++m_.running_; }
+    ~RunGuard()
+    {
+      if(--m_.running_ == 0)
+        m_.callbacks_.remove_if([](const TCPair & p) { return !p.first.isPaired(); });
+    }
+    CallbackManager & m_;
+  };
+
+  std::list<TCPair> callbacks_; // the elements have to stay in place when callbacks are registered while running.
+  int running_ = 0;
 };
 
 inline PairElementTokenHandle CallbackManager::registerCallback(std::function<void()> c)
@@ -54,24 +71,23 @@ inline void CallbackManager::unregisterCallback(const PairElementToken & t)
   auto it =
       std::find_if(callbacks_.begin(), callbacks_.end(), [&](const TCPair & p) { return p.first.isPairedWith(t); });
   if(it != callbacks_.end())
-    callbacks_.erase(it);
+  {
+    if(running_ > 0) // it might be the callback being executed: it will be removed at the end of the run.
+      it->first = PairElementToken();
+    else
+      callbacks_.erase(it);
+  }
   else
     throw std::runtime_error("Element to unregister not found.");
 }
 
 inline void CallbackManager::run()
 {
-  for(size_t i = 0; i < callbacks_.size();)
+  RunGuard guard(*this);
+  for(auto & p : callbacks_)
   {
-    if(callbacks_[i].first.isPaired())
-    {
-      std::invoke(callbacks_[i].second);
-      ++i;
-    }
-    else
-    {
-      callbacks_.erase(callbacks_.begin() + i);
-    }
+    if(p.first.isPaired())
+      std::invoke(p.second);
   }
 }
 
-- 
2.43.0


From b5f59cf72ca5f7210db5d804e12660722a124133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 29/46] fix: CallGraph refuses cyclic direct dependencies
 instead of recursing forever

---
 include/tvm/graph/CallGraph.h |  6 ++++++
 src/graph/CallGraph.cpp       | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/tvm/graph/CallGraph.h b/include/tvm/graph/CallGraph.h
index de82ebd..090c9a5 100644
--- a/include/tvm/graph/CallGraph.h
+++ b/include/tvm/graph/CallGraph.h
@@ -83,6 +83,12 @@ protected:
    */
   std::vector<int> addOutput(abstract::Outputs * source, int output);
 
+  /** Check that following the direct dependencies of \p output ends
+   *
+   * \throws If they form a cycle
+   */
+  void checkDirectDependencies(internal::AbstractNode * node, int output) const;
+
   /** Add a Call to the graph
    *
    * It has no effect if the Call is already in the graph.
diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index c8dfdb2..a2f1794 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -3,6 +3,10 @@
 #include <tvm/graph/CallGraph.h>
 #include <tvm/graph/internal/Logger.h>
 
+#include <set>
+#include <stdexcept>
+#include <utility>
+
 #define TVM_GRAPH_LOG_ADD_GRAPH_OUTPUTS(graph, inputs) internal::Logger::logger().addGraphOutput(graph, inputs.get());
 
 namespace tvm
@@ -57,6 +61,7 @@ std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
     }
     else if(node->directDependencies_.count(output))
     {
+      checkDirectDependencies(node, output);
       const auto & p = node->directDependencies_[output];
       callId = addOutput(p.first, p.second);
     }
@@ -69,6 +74,25 @@ std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
   return callId;
 }
 
+void CallGraph::checkDirectDependencies(internal::AbstractNode * node, int output) const
+{
+  std::set<std::pair<internal::AbstractNode *, int>> chain;
+  while(!node->outputDependencies_.count(output) && node->directDependencies_.count(output))
+  {
+    if(!chain.insert({node, output}).second)
+    {
+      throw std::logic_error("[CallGraph::addOutput] The direct dependencies of an output form a cycle");
+    }
+    const auto & p = node->directDependencies_.at(output);
+    if(!p.first->is_node_)
+    {
+      return;
+    }
+    node = static_cast<internal::AbstractNode *>(p.first);
+    output = p.second;
+  }
+}
+
 int CallGraph::addCall(Call c)
 {
   if(callId_.count(c))
-- 
2.43.0


From cd0f44506d44988d08e57308e277547000ecbf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 30/46] fix: addInputDependency registers and checks every
 output, not only the first

---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From a976da7d76157873271698c3639c8c955c6f5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:47 +0000
Subject: [PATCH 31/46] fix: OutputSelector keeps the custom criterion of the
 class it extends

---
 include/tvm/graph/abstract/OutputSelector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/graph/abstract/OutputSelector.h b/include/tvm/graph/abstract/OutputSelector.h
index 53950f3..2e01d6c 100644
--- a/include/tvm/graph/abstract/OutputSelector.h
+++ b/include/tvm/graph/abstract/OutputSelector.h
@@ -146,7 +146,7 @@ protected:
   {
     if(e < 0 || e >= static_cast<int>(this->dynamicallyEnabled_.size()))
       throw std::runtime_error("Enum value is invalid");
-    return this->dynamicallyEnabled_[e];
+    return this->dynamicallyEnabled_[e] && Base::isOutputCustomEnabled(e);
   }
 };
 
-- 
2.43.0


From a394c209eb32ba3efca5004124448e497511803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:48 +0000
Subject: [PATCH 32/46] fix: copying an OutputSelector keeps its disabled
 outputs

---
 include/tvm/graph/abstract/OutputSelector.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tvm/graph/abstract/OutputSelector.h b/include/tvm/graph/abstract/OutputSelector.h
index 2e01d6c..7476cd4 100644
--- a/include/tvm/graph/abstract/OutputSelector.h
+++ b/include/tvm/graph/abstract/OutputSelector.h
@@ -78,14 +78,23 @@ template<typename OutputProvider, typename Base = OutputProvider>
 class OutputSelector : public Base, protected SelectorMembers<!is_output_selector<Base>()>
 {
 public:
-  /** Constructor. Simply forward the arguments for constructing OutputProvider*/
-  template<typename... Args>
+  /** Constructor. Simply forward the arguments for constructing OutputProvider
+   * (copies and moves of an OutputSelector are left to the dedicated constructors).
+   */
+  template<typename... Args,
+           std::enable_if_t<!(sizeof...(Args) == 1 && (... && std::is_base_of_v<OutputSelector, std::decay_t<Args>>)),
+                            int> = 0>
   OutputSelector(Args &&... args) : Base(std::forward<Args>(args)...)
   {
     static_assert(std::is_base_of<Outputs, Base>::value, "Cannot build for a type that is not derived of Outputs");
     this->dynamicallyEnabled_.resize(OutputProvider::OutputSize, true);
   }
 
+  OutputSelector(const OutputSelector &) = default;
+  OutputSelector(OutputSelector &&) = default;
+  OutputSelector & operator=(const OutputSelector &) = default;
+  OutputSelector & operator=(OutputSelector &&) = default;
+
   /** Lock the outputs, preventing them to be enabled or disabled. */
   void lock() { this->locked_ = true; }
 
-- 
2.43.0


From ac1d6428605da7b3be1de10a32b2fa18181c2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 33/46] fix: d*I is the identity (or minus identity) only for d
 = 1 or -1

---
 src/internal/MatrixProperties.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..53d0a17 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -266,12 +266,14 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if((s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY) && d != 1 && d != -1)
+    return Shape::MULTIPLE_OF_IDENTITY;
+  else if(d < 0)
     return -s;
-  else if(d > 0)
-    return s;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
-- 
2.43.0


From 0e999c45917dfd73b8f484c87255e7c98ab723aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 34/46] fix: operations on matrix properties do not throw when
 the result is necessarily constant or invertible

---
 src/internal/MatrixProperties.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 53d0a17..e45c11e 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -357,28 +357,39 @@ Shape operator*(const Shape & s1, const Shape & s2)
   }
 }
 
+namespace
+{
+/** Properties of the result of an operation. What is implied by the shape and the positiveness of this result takes
+ * precedence over what could be said of its constness and invertibility from those of the operands alone.
+ */
+MatrixProperties combine(Shape s, Positiveness p, bool constant, bool invertible)
+{
+  return {s, p, Constness(constant || deduceConstance(s)), Invertibility(invertible || deduceInvertibility(s, p))};
+}
+} // namespace
+
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return combine(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return combine(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return combine(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
+                 p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return combine(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
+                 p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return combine(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
+                 p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From 5f4fecfa6551744f2da6d6404e5c517db4083edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 35/46] fix: Proportional refuses matrix gains with only one
 good dimension

---
 src/task_dynamics/Proportional.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..57ae9a5 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,8 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2 && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
+                             || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From 694f68746ff5081c7059114105076cd423e7bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:45 +0000
Subject: [PATCH 36/46] fix: critically damped matrix gains use the square root
 of the stiffness, which is updated too

---
 src/task_dynamics/ProportionalDerivative.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..d6658d9 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,7 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -152,7 +152,8 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kp_ = kp;
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From 501978405c92371cdae89eb68fd1b64045f3a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:21 +0000
Subject: [PATCH 37/46] fix: linear expressions keep their variable, which can
 be given by a temporary

---
 include/tvm/utils/AffineExpr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/utils/AffineExpr.h b/include/tvm/utils/AffineExpr.h
index b9cced1..6890323 100644
--- a/include/tvm/utils/AffineExpr.h
+++ b/include/tvm/utils/AffineExpr.h
@@ -51,8 +51,8 @@ public:
 private:
   /** The matrix expression. */
   typename internal::RefSelector_t<Derived> matrix_;
-  /** The variable */
-  const VariablePtr & var_;
+  /** The variable. It is kept by value, as it can be given by a temporary pointer (e.g. A * dot(x)).*/
+  VariablePtr var_;
 };
 
 /** A class representing an affine expression \f$ A_1 x_1 + A_2 x_2 + \ldots + A_k x_k + b \f$
-- 
2.43.0


From 7136666198f98298f7c7443fbd5cdc49a538f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:04 +0000
Subject: [PATCH 38/46] fix: a rectangular identity matrix is not recorded as
 the identity in linear functions

---
 include/tvm/function/BasicLinearFunction.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/tvm/function/BasicLinearFunction.h b/include/tvm/function/BasicLinearFunction.h
index 9cca4a6..b04f3dc 100644
--- a/include/tvm/function/BasicLinearFunction.h
+++ b/include/tvm/function/BasicLinearFunction.h
@@ -153,19 +153,24 @@ inline void BasicLinearFunction::add(const Eigen::MatrixBase<Derived> & A, Varia
     addVariable(x, true);
     jacobian_.at(x.get()) = A;
     Shape shape = Shape::GENERAL;
+    // Identity(m, n) has the same type as a square identity matrix
+    [[maybe_unused]] const bool square = A.rows() == A.cols();
     // TODO: generalize test to matrices with fixed size, to triangular matrices
     // and to richer diagonal case
     if constexpr(std::is_same_v<Derived, std::remove_const_t<tvm::utils::internal::IdentityType>>)
     {
-      shape = Shape::IDENTITY;
+      if(square)
+        shape = Shape::IDENTITY;
     }
     if constexpr(std::is_same_v<Derived, std::remove_const_t<tvm::utils::internal::MinusIdentityType>>)
     {
-      shape = Shape::MINUS_IDENTITY;
+      if(square)
+        shape = Shape::MINUS_IDENTITY;
     }
     if constexpr(std::is_same_v<Derived, std::remove_const_t<tvm::utils::internal::MultIdentityType>>)
     {
-      shape = Shape::MULTIPLE_OF_IDENTITY;
+      if(square)
+        shape = Shape::MULTIPLE_OF_IDENTITY;
     }
     if constexpr(std::is_same_v<Derived, std::remove_const_t<decltype(Eigen::VectorXd(1).asDiagonal())>>)
     {
-- 
2.43.0


From de2dd91f1fb133aca586eac720cb0a6ac2bba04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 39/46] fix: single-sided bounds are written to the vector of
 their target, also for minus identity

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 9a52cc2..b6b36e4 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -607,12 +607,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b;
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -631,13 +626,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From 2116cf3f6d843c5595f9f51fc6ee506ef7d55e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:01 +0000
Subject: [PATCH 40/46] fix: the infinite side of an inequality given to a
 double-sided target follows its opposite convention

---
 include/tvm/scheme/internal/Assignment.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..539e123 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,27 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d,
+                                            To v,
+                                            const MatrixConstRef & D,
+                                            bool flip,
+                                            bool,
+                                            bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From da9a9a8f6ca69edd836c6985c71d194a74e62c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 41/46] fix: the size of a new anisotropic weight is the one of
 the constraint, also when it is assigned to twice as many rows

---
 src/scheme/Assignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index b6b36e4..341ae25 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -104,7 +104,7 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
   if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
-       && requirements_->anisotropicWeight().value().size() != target_.size())
+       && requirements_->anisotropicWeight().value().size() != source_->size())
       throw std::runtime_error("[Assignment::onUpdateWeights] Anisotropic weight has not the correct size.");
 
     if(useDefaultAnisotropicWeight_ && !requirements_->anisotropicWeight().isDefault()
-- 
2.43.0


From 92128db44a77d6acb41ce64da60c7ab89fc4f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 42/46] fix: the zero rows of a row-selected diagonal matrix
 are not at their index in the full matrix

---
 include/tvm/hint/internal/DiagonalCalculator.h | 1 +
 src/hint/DiagonalCalculator.cpp                | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tvm/hint/internal/DiagonalCalculator.h b/include/tvm/hint/internal/DiagonalCalculator.h
index 2212c17..ad6ca0b 100644
--- a/include/tvm/hint/internal/DiagonalCalculator.h
+++ b/include/tvm/hint/internal/DiagonalCalculator.h
@@ -54,6 +54,7 @@ public:
     std::vector<Eigen::DenseIndex> innz_;  // indices of the non-zero rows in the resulting matrix
     std::vector<Eigen::DenseIndex> cnnz_;  // complementary to nnz in [0:col-1]
     std::vector<Eigen::DenseIndex> zeros_; // indices of the zero rows
+    std::vector<Eigen::DenseIndex> izeros_; // indices of the zero rows in the resulting matrix
 
     Eigen::VectorXd inverse_;
   };
diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 88005e2..52ec456 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -225,7 +225,7 @@ void DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   // multiplying by S^T
   for(size_t i = 0; i < zeros_.size(); ++i)
   {
-    outS.row(static_cast<DenseIndex>(i)) = in.row(zeros_[i]);
+    outS.row(static_cast<DenseIndex>(i)) = in.row(izeros_[i]);
   }
 }
 
@@ -275,6 +275,7 @@ void DiagonalCalculator::Impl::build()
     }
     else if(appearZero[i])
     {
+      izeros_.push_back(k);
       ++k;
     }
   }
-- 
2.43.0


From f602b7cdb8bd9400e4beee25f5f4abe133dd1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 43/46] fix: the variables and functions of the substitutions
 are kept when other tasks are added or removed

---
 include/tvm/hint/internal/Substitutions.h | 3 +++
 src/hint/Substitutions.cpp                | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/tvm/hint/internal/Substitutions.h b/include/tvm/hint/internal/Substitutions.h
index d5d96a5..8ed69d0 100644
--- a/include/tvm/hint/internal/Substitutions.h
+++ b/include/tvm/hint/internal/Substitutions.h
@@ -75,6 +75,9 @@ private:
   /** The substitutions, as added to the objects*/
   std::vector<Substitution> substitutions_;
 
+  /** True if finalize was called after the last change of substitutions_.*/
+  bool finalized_ = false;
+
   /** Dependency graph between the substitutions. There is an edge from i to j
    * if the substitutions_[i] relies on substitutions_[j].
    */
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 3350bec..3b99fcb 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -29,6 +29,7 @@ void Substitutions::add(const Substitution & s)
   auto i = dependencies_.addNode();
   assert(i == substitutions_.size());
   substitutions_.push_back(s);
+  finalized_ = false;
 
   for(size_t j = 0; j < substitutions_.size(); ++j)
   {
@@ -54,6 +55,7 @@ void Substitutions::remove(const Substitution & s)
 
   dependencies_.removeNode(it - substitutions_.begin());
   substitutions_.erase(it);
+  finalized_ = false;
 }
 
 const std::vector<Substitution> & Substitutions::substitutions() const { return substitutions_; }
@@ -73,6 +75,11 @@ bool Substitutions::uses(LinearConstraintPtr c) const
 
 void Substitutions::finalize()
 {
+  // The variables and functions given to the solvers need to remain the same as long as the substitutions do.
+  if(finalized_)
+    return;
+  finalized_ = true;
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
-- 
2.43.0


From a6239faebd55ed9559132fb084c7b08b9ff9a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:06 +0000
Subject: [PATCH 44/46] fix: all the substituted parts of a variable are
 replaced

---
 src/hint/Substitutions.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 3b99fcb..b8a612d 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -167,35 +167,33 @@ const std::vector<VariablePtr> & Substitutions::otherVariables() const { return
 
 VariableVector Substitutions::substitute(const VariablePtr & x) const
 {
-  auto it =
-      std::find_if(variables_.begin(), variables_.end(), [&x](const VariablePtr & v) { return v->intersects(*x); });
-  if(it == variables_.end()) // no substitution of var
-  {
-    VariableVector v({x});
-    return v;
-  }
-  else // substitution of var
+  tvm::internal::VariableCountingVector vcv;
+  vcv.add(x);
+  // Several parts of x might be substituted.
+  for(size_t i = 0; i < variables_.size(); ++i)
   {
-    const auto & f = varSubstitutions_[static_cast<size_t>(it - variables_.begin())];
-    if(*x == **it) // substitution by a full variable
+    const auto & xi = variables_[i];
+    if(!xi->intersects(*x))
+      continue;
+
+    const auto & f = varSubstitutions_[i];
+    if(*x == *xi) // substitution by a full variable
     {
       return f->variables();
     }
-    else if(x->contains(**it)) // part of x should be substituted
+    else if(x->contains(*xi)) // part of x should be substituted
     {
-      tvm::internal::VariableCountingVector vcv;
-      vcv.add(x);
-      vcv.remove(*it);
+      vcv.remove(*xi);
       vcv.add(f->variables());
-      return vcv.variables();
     }
     else
     {
       throw std::runtime_error("[Substitutions::substitute] Variable " + x->name()
-                               + " intersect but is not contained by a variable being substituted (" + (*it)->name()
+                               + " intersect but is not contained by a variable being substituted (" + xi->name()
                                + "). Variables in the subsitution do not a fine enough level of granularity.");
     }
   }
+  return vcv.variables();
 }
 
 Substitution const * Substitutions::getSubstitutionFor(const constraint::abstract::LinearConstraint & cstr)
-- 
2.43.0


From ef2d4a443f420337a759b9509f2d6f33727e9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:52 +0000
Subject: [PATCH 45/46] fix: the solver handles what remains of the constraints
 used by substitutions, and its variables

---
 src/scheme/HierarchicalLeastSquares.cpp | 8 +++++++-
 src/scheme/WeightedLeastSquares.cpp     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 7b63cbb..f8c8c73 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -8,6 +8,7 @@
 #include <tvm/solver/internal/SolverEvents.h>
 #include <tvm/utils/internal/map.h>
 
+#include <algorithm>
 #include <iostream>
 
 namespace tvm
@@ -25,7 +26,11 @@ const internal::SchemeAbilities HierarchicalLeastSquares::abilities_ = {NoLimit,
 bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
                                       internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  // The solver has nothing to do when all the constraints are used, without remainder, by the substitutions.
+  const auto & subs = problem.substitutions();
+  const auto & constraints = problem.constraintMap();
+  if(!subs.additionalConstraints().empty()
+     || std::any_of(constraints.begin(), constraints.end(), [&](const auto & c) { return !subs.uses(c.second.constraint); }))
   {
     Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
@@ -115,6 +120,7 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
   }
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq[0] += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 765f5ff..4c43959 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -8,6 +8,7 @@
 #include <tvm/solver/internal/SolverEvents.h>
 #include <tvm/utils/internal/map.h>
 
+#include <algorithm>
 #include <iostream>
 
 namespace tvm
@@ -26,7 +27,11 @@ const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  // The solver has nothing to do when all the constraints are used, without remainder, by the substitutions.
+  const auto & subs = problem.substitutions();
+  const auto & constraints = problem.constraintMap();
+  if(!subs.additionalConstraints().empty()
+     || std::any_of(constraints.begin(), constraints.end(), [&](const auto & c) { return !subs.uses(c.second.constraint); }))
   {
     Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
@@ -176,6 +181,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   // They are added at level 0
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
-- 
2.43.0


From 058cfa5c85af5f700a7c57c8f632d4bf752a0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:30 +0000
Subject: [PATCH 46/46] fix: the variables of several substitutions in a
 constraint can intersect

---
 src/scheme/Assignment.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 341ae25..439eace 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -561,7 +561,8 @@ void Assignment::addAssignments(const VariableVector & variables,
 
   // For all variables that are substituted into but are not part of the source variables,
   // we set the corresponding matrix block to zero.
-  VariableVector substitutedInto;
+  // The variables of different substitutions can intersect.
+  tvm::internal::VariableCountingVector substitutedInto;
   for(const auto & x : xcp)
   {
     int i = xs.indexOf(*x);
@@ -570,7 +571,7 @@ void Assignment::addAssignments(const VariableVector & variables,
       substitutedInto.add(variableSubstitutions_[static_cast<int>(i)]->variables());
     }
   }
-  for(const auto & x : substitutedInto)
+  for(const auto & x : substitutedInto.variables())
   {
     if(!xc.contains(*x))
     {
-- 
2.43.0

