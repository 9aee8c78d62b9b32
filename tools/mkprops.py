#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Call graph runs each needed update exactly once, after all it depends on",
  "Executing an up-to-date call graph runs exactly the updates on which the outputs requested by its inputs depend (transitively, through output->update, update->update, update->source-output and output->source-output dependencies, including those a node declares dynamically), runs each of them exactly once, and never runs one before an update it depends on. An update no requested output depends on is never run, and a cyclic dependency is refused with an exception when the plan is built instead of being executed partially.",
  ["programs", "histories"],
  "every set of nodes, outputs, updates and dependencies between them (static and dynamic, acyclic or not), every set of requested outputs, every sequence of addInput/removeInput/update/execute",
  "CallGraphTest and ProblemComputationTest build one hand-made robot-like graph; the order must be right for every graph and every set of requested outputs.",
  ["include/tvm/graph/CallGraph.h", "src/graph/CallGraph.cpp", "include/tvm/graph/abstract/Node.h", "include/tvm/graph/abstract/Node.hpp", "include/tvm/graph/internal/Inputs.h", "include/tvm/graph/internal/DependencyGraph.h"],
  [("update/output dependency collection", "src/graph/CallGraph.cpp CallGraph::update / addOutput / addUpdate"), ("plan by levels", "src/graph/CallGraph.cpp build")],
  [("plan_", "ordered list of the calls to perform", "CallGraph"), ("dependency_", "graph between the updates", "CallGraph")],
  ["order of the calls to the user-defined update functions during CallGraph::execute()"])

p("C02", "Dependency graph: every order lists every node once, after its dependencies",
  "For every acyclic graph, order() lists each node exactly once with every node after all the nodes it depends on, and groupedOrder() lists each node exactly once with one group per connected component (ignoring edge directions), each group in such an order. A graph that contains a cycle, wherever it is, is refused with an exception by both, never answered with missing nodes; reduce() returns the groups of mutually dependent nodes and the graph of exactly the dependencies between distinct groups, and removing a node leaves the graph as if it and its edges had never been added.",
  ["programs", "histories"],
  "every directed graph on n nodes and every sequence of addNode/addEdge/removal, cyclic or not",
  "DependencyGraphTest has a handful of graphs; cycles not reachable from the roots are never tried.",
  ["include/tvm/graph/internal/DependencyGraph.h", "src/graph/DependencyGraph.cpp"],
  [("depth-first order", "src/graph/DependencyGraph.cpp order_/orderUtil"), ("Tarjan groups", "src/graph/DependencyGraph.cpp reduce/tarjanUtil")],
  [("edges_/children_/roots_", "the graph", "DependencyGraph")], ["order()", "groupedOrder()", "reduce()"])

p("C03", "Enabled outputs: class-, instance- and custom-level disabling and lock",
  "An output is enabled exactly when it is neither disabled statically by the class of the node, nor disabled on the instance, nor rejected by the custom criterion of the class if it has one: enabling or disabling some outputs changes those outputs of that object only, and a statically disabled output can never be enabled. A copy has the same outputs enabled and is then independent. While the selector is locked every change is refused with an exception and changes nothing, and depending on a disabled output is refused.",
  ["histories", "programs"],
  "every class hierarchy of nodes with static (de)activations and every sequence of enable/disable/lock/unlock/copy calls",
  "OutputSelectorTest checks a fixed sequence on one class hierarchy.",
  ["include/tvm/graph/abstract/OutputSelector.h", "include/tvm/graph/abstract/Outputs.h", "include/tvm/graph/internal/Inputs.hpp"],
  [("dynamic enable map and lock", "OutputSelector"), ("static enable flags", "Outputs / macros SET_OUTPUTS, DISABLE_OUTPUTS")],
  [("dynamicOutputs_", "instance-level flags", "OutputSelector"), ("locked_", "lock", "OutputSelector")], ["isOutputEnabled", "exceptions"])

p("C04", "Variables: derivative, primitive and sub-variable operations commute and alias",
  "dot(x,n) and primitive(x,n) are inverse of each other whatever the mix and order in which they are called: the same derivative of the same variable is always the same object, of the right derivative number, size (position size for number 0, tangent size otherwise) and base, while any copy is independent. Taking a sub-variable commutes with derivation and primitivation, a sub-variable reads and writes exactly its range of its super-variable's value, and subvariable/contains/intersects/range mappings agree with set operations on index ranges.",
  ["histories", "inputs"],
  "every sequence of dot/primitive/basePrimitive/duplicate/subvariable/value calls on Euclidean and non-Euclidean spaces, including after intermediate handles have been released",
  "VariableTest checks fixed chains on a few spaces.",
  ["include/tvm/Variable.h", "src/Variable.cpp", "include/tvm/Space.h", "src/Space.cpp"],
  [("derivative chain with shared and weak links", "src/Variable.cpp dot/primitive/subvariable"), ("memory sharing with the super variable", "Variable constructors")],
  [("derivativeNumber_, primitive_, derivative_, superVariable_", "the chain", "Variable")], ["dot", "primitive", "subvariable", "value", "getMappingIn", "contains", "intersects"])

p("C05", "Variable vectors: disjoint gap-free mapping, values follow the mapping",
  "A variable vector holds each variable at most once, in insertion order of the remaining ones, its total size is the sum of the sizes, and each variable's mapping is a distinct contiguous range so that the ranges tile [0,total) with no gap or overlap after any sequence of insertions and removals (also when a variable belongs to several vectors or vectors are copied or moved). Reading or writing the vector's value reads or writes each variable's own value at its mapping, and union/difference/containment/index queries agree with the sequence of variables held.",
  ["histories", "inputs"],
  "every sequence of add/remove/clear/copy/assign/setValue/setZero over any set of variables, derivatives and sub-variables, in any number of vectors",
  "VariableVectorTest uses a handful of fixed sequences and mostly a single vector.",
  ["include/tvm/VariableVector.h", "src/VariableVector.cpp", "src/Variable.cpp"],
  [("start cache by vector id", "src/VariableVector.cpp getMappingOf, Variable::getMappingIn"), ("add/remove/clear", "src/VariableVector.cpp")],
  [("variables_", "sequence of variables", "VariableVector"), ("startIn_", "per-variable cached start", "VariableVector.h / Variable")], ["getMappingIn", "value", "totalSize", "indexOf"])

p("C06", "Counted variables and ranges equal the multiset of additions and removals",
  "After any sequence of additions and removals, the ranges (resp. variables or variable parts) reported by the counting structures are exactly those covered by at least one not-yet-removed addition, each one reported once, with the multiplicities of the reported pieces equal to the number of covering additions. Removing something that is not entirely covered by what was added is refused and leaves the state unchanged, and a cached result is never reported after a change that affects it.",
  ["histories", "inputs"],
  "every history of add/remove of (sub-)variables, variable vectors or ranges, overlapping or not, in both the splitting and non-splitting modes",
  "VariableCountingVectorTest and RangeCountingTest have one or two scripted histories.",
  ["include/tvm/internal/RangeCounting.h", "src/internal/RangeCounting.cpp", "include/tvm/internal/VariableCountingVector.h", "src/internal/VariableCountingVector.cpp"],
  [("list of cut points", "src/internal/RangeCounting.cpp"), ("per-super-variable counting and cached vectors", "src/internal/VariableCountingVector.cpp")],
  [("limits_", "cut points", "RangeCounting"), ("upToDate_", "cache validity", "VariableCountingVector")], ["ranges", "variables", "simple", "add/remove results"])

p("C07", "Incremental problem update gives the same solver problem as a fresh rebuild",
  "After any sequence of adding and removing tasks and substitutions and changing weights, solving with the weighted-least-squares scheme hands the solver exactly the problem (objective, equality, inequality and bound rows over the problem variables) that a newly created scheme or control problem holding the same tasks with the same requirements hands it. The same is true of the value of the data: each solve reflects the current values of all functions, references, right-hand sides and weights. (The objective may differ by one common positive factor, since the reference priority of the emulated levels is fixed when the scheme first solves; a weight change on a priority 0 task is refused once by the scheme and otherwise ignored.)",
  ["histories", "configurations"],
  "every history of add/remove/weight change/value change/solve, any tasks types and priorities, any solver constraint convention, several problems and schemes alive at once",
  "LeastSquareSolverTest/SolverTest need a vendor solver and are not even run; no test compares an incremental problem with a rebuilt one.",
  ["include/tvm/solver/abstract/LeastSquareSolver.h", "src/solver/LeastSquareSolver.cpp", "include/tvm/scheme/WeightedLeastSquares.h", "src/scheme/WeightedLeastSquares.cpp", "include/tvm/solver/internal/SolverEvents.h", "include/tvm/scheme/internal/ProblemComputationData.h", "include/tvm/scheme/internal/LinearizedProblemComputationData.h"],
  [("event processing", "src/scheme/WeightedLeastSquares.cpp updateComputationData/processProblemDefinitionEvents"), ("solver data impact logic", "src/solver/LeastSquareSolver.cpp process, updateVariables, updateConstraints, previewChanges")],
  [("nEq_, nIneq_, nObj_", "numbers of rows", "LeastSquareSolver"), ("subOptions/assignments", "constraint to assignments", "LeastSquareSolver")], ["the matrices the solver subclass sees in solve_()"])

p("C08", "Problem bookkeeping: tasks and change events reach every scheme exactly once",
  "A control problem reports exactly the tasks added and not removed, in order of addition, one linearized constraint per task, ignores the removal of an unknown task, and is left unchanged by an addition it refuses. Every change made to a problem (task addition or removal, weight change, substitution addition or removal) is delivered exactly once, in order, to each scheme that solves it and to no other problem, and nothing is delivered any more for a removed task.",
  ["histories", "fault_sequences"],
  "every interleaving of add/remove/re-add/weight change on several problems solved by several schemes",
  "ProblemTest/EventsTest have single-problem scripts; multi-problem, multi-scheme interleavings and refused operations are not explored.",
  ["include/tvm/ControlProblem.h", "src/ControlProblem.cpp", "include/tvm/LinearizedControlProblem.h", "src/LinearizedControlProblem.cpp", "include/tvm/scheme/internal/ProblemComputationData.h", "include/tvm/scheme/internal/ResolutionSchemeBase.h"],
  [("notify / computation data map", "src/ControlProblem.cpp"), ("event queue coalescing", "include/tvm/scheme/internal/ProblemComputationData.h addEvent")],
  [("tasks_, computationData_, callbacks_", "problem state", "ControlProblem"), ("events_", "pending events", "ProblemComputationData")], ["tasks()", "constraints()", "constraintMap()", "scheme behaviour at solve"])

p("C09", "A task keeps its feasible set and cost under every solver constraint convention",
  "Whatever the kind of task (equal, lower, greater, double-sided), its right-hand-side convention and that of the solver (equality, >=, <=, double-sided rows, zero, as-given or opposite right-hand sides, or bounds on the variables), the rows or bounds handed to the solver for a constraint have exactly the same solutions as the constraint. For an objective, the sum of squares of the rows handed to the solver is the task's weighted violation: scalar weight times the square of each component scaled by its anisotropic weight, times the factor its priority level implies.",
  ["configurations", "inputs"],
  "every task type x right-hand-side convention x solver convention x weights, with any jacobian structure (general, diagonal, plus or minus identity, zero) and any split over several variables",
  "AssignmentTest enumerates the conventions with one random matrix and a single update; weights, bounds, updates of values and end-to-end composition are not covered.",
  ["include/tvm/scheme/internal/Assignment.h", "include/tvm/scheme/internal/Assignment.hpp", "src/scheme/Assignment.cpp", "src/scheme/AssignmentTarget.cpp", "src/solver/LeastSquareSolver.cpp"],
  [("convention conversion", "src/scheme/Assignment.cpp build / addBounds"), ("weight application", "Assignment::processRequirements")],
  [("target_, scalarWeight_, anisotropicWeight_", "assignment state", "Assignment")], ["matrices seen by the solver", "AssignmentTarget ranges"])

p("C10", "Substitutions do not change the solution set and recover substituted variables",
  "Solving a problem with any set of valid substitutions hands the solver a problem in the remaining variables whose solutions, completed by the substituted variables that are written back after the solve, are exactly those of the problem without substitutions; this holds for diagonal, invertible, rank-deficient and mutually dependent substitutions, for constraints, bounds and objectives. Adding or removing a substitution later on has the same effect as having built the problem that way.",
  ["inputs", "configurations", "histories"],
  "every set of substitutions (one or several variables, chained, cyclic groups, any rank, any declaration order) and every set of remaining tasks",
  "SubstitutionTest checks a few random instances of fixed shapes, mostly without going through a problem.",
  ["include/tvm/hint/Substitution.h", "src/hint/Substitution.cpp", "src/hint/Substitutions.cpp", "src/hint/SubstitutionUnit.cpp", "src/hint/GenericCalculator.cpp", "src/hint/DiagonalCalculator.cpp", "src/hint/AutoCalculator.cpp", "src/scheme/Assignment.cpp"],
  [("grouping and ordering", "src/hint/Substitutions.cpp finalize"), ("substitution units", "src/hint/SubstitutionUnit.cpp"), ("substituted assignments", "src/scheme/Assignment.cpp")],
  [("variables_, varSubstitutions_, additionalVariables_, additionalConstraints_", "result of the substitutions", "Substitutions")], ["matrices seen by the solver", "variable values after solve"])

p("C11", "Hierarchical scheme hands each level exactly its tasks' rows",
  "The hierarchical-least-squares scheme hands the solver, for every priority level, exactly the equality, inequality and bound rows of the tasks of that level, with the same feasible set (level 0) or weighted violation (other levels) as the tasks, over the same variables for all levels. The result is independent of the order in which tasks were added and reflects current values and weights at each solve.",
  ["configurations", "histories"],
  "every set of tasks spread over any levels, any types and conventions, repeated solves with changing values and weights, several build cycles",
  "HierarchicalLeastSquareSolverTest is not run in the offline suite, and uses one problem.",
  ["include/tvm/scheme/HierarchicalLeastSquares.h", "src/scheme/HierarchicalLeastSquares.cpp", "include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h", "src/solver/HierarchicalLeastSquareSolver.cpp"],
  [("per-level assembly", "src/solver/HierarchicalLeastSquareSolver.cpp"), ("level building", "src/scheme/HierarchicalLeastSquares.cpp")],
  [("nEq_, nIneq_, cstr map", "per-level data", "HierarchicalLeastSquareSolver")], ["the per-level matrices the solver subclass sees"])

p("C12", "Matrix properties claimed for a result are true of the result",
  "Whatever the properties declared for the operands, the shape, constness, positiveness and invertibility deduced for a negated, scaled, added, subtracted or multiplied matrix are true of the resulting matrix whenever those of the operands are true. Declared combinations are deduced or refused consistently: every implied property is set, contradictory ones are refused, and no operation on consistently declared operands fails.",
  ["inputs", "configurations"],
  "every pair of declared property sets and all matrices satisfying them",
  "MatrixPropertiesTest checks selected combinations of flags, not against actual matrices.",
  ["include/tvm/internal/MatrixProperties.h", "src/internal/MatrixProperties.cpp", "include/tvm/internal/MatrixWithProperties.h"],
  [("deduction tables", "src/internal/MatrixProperties.cpp"), ("operators", "src/internal/MatrixProperties.cpp")], [], ["isX() queries on results"])

p("C13", "Linearized task constraint enforces the requested task dynamics",
  "For every function, right-hand side, task type and dynamics, the linear constraint built for a task is, at every update, exactly J.dot(x,k) (op) d*-drift, where k is the order of the function derivative and d* the value the dynamics prescribes from the current function value and velocity, the right-hand side being taken from the task in the convention of the task (bounds l and u each giving their own value for double-sided tasks). Each dynamics returns its defining formula for all values and gains, including at the switching points and over the history of stateful ones. (Dampers are for inequality tasks, an automatic damping coefficient is for activations strictly outside the safety distance, gains have the size of the function.)",
  ["inputs", "histories", "configurations"],
  "every function value/velocity history, gains, right-hand sides, task types and dynamics",
  "TaskDynamicsTest checks each dynamics at a few values; LinearizedTaskConstraint is exercised with one or two dynamics.",
  ["include/tvm/task_dynamics", "src/task_dynamics", "include/tvm/constraint/internal/LinearizedTaskConstraint.h", "src/constraint/LinearizedTaskConstraint.cpp", "src/Task.cpp"],
  [("updateValue of each dynamics", "src/task_dynamics/*.cpp"), ("updateLDyn/updateUDyn/...", "src/constraint/LinearizedTaskConstraint.cpp")],
  [("value_, a_, active flags", "dynamics state", "TaskDynamicsImpl and subclasses")], ["dynamics value()", "constraint l/u/e and jacobian"])

p("C14", "Requirements: defaults, independent copies, and change notification",
  "Solving requirements built from any combination and order of priority, weight, anisotropic weight and violation evaluation hold the given ones and the documented default of the others, a requirement is default exactly when it was never set, and copies are independent. Changing a weight triggers every registered callback once, in order, no callback of another object or of a requirement copied from, and none whose token has been released. (Setting the value it already has may or may not notify; assigning a requirement to another one copies both the value and whether it is the default.)",
  ["configurations", "histories"],
  "every combination/order of requirements and every history of set/copy/register/release",
  "SolvingRequirementsTest checks a few combinations; callbacks only indirectly.",
  ["include/tvm/requirements/SolvingRequirements.h", "include/tvm/requirements/abstract/SingleSolvingRequirement.h", "include/tvm/requirements/Weight.h", "include/tvm/requirements/AnisotropicWeight.h", "include/tvm/internal/CallbackManager.h"],
  [("variadic construction", "SolvingRequirements"), ("value assignment and callbacks", "SingleSolvingRequirement")],
  [("value_, default_", "requirement state", "SingleSolvingRequirement")], ["value()", "isDefault()", "callback runs"])

p("C15", "Affine expressions and task relations denote what they say",
  "Any expression built from constant matrices, variables, sums, differences, negations, scalings and constants has, as a function, the value and jacobians of the mathematical expression for every value of its variables, whatever the grouping and repetition of terms and after the operands used to build it are gone. A relation (==, >=, <=, or double-sided) between functions, expressions and constants gives a task of that type with that right-hand side, whichever side the constant is on.",
  ["programs", "inputs"],
  "every expression tree and relation, every variable value",
  "AffineExprTest and ProtoTaskTest check a fixed list of expressions.",
  ["include/tvm/utils/AffineExpr.h", "include/tvm/utils/internal/AffineExprOperators.h", "include/tvm/utils/internal/AffineExprDetail.h", "include/tvm/utils/ProtoTask.h", "include/tvm/function/BasicLinearFunction.h", "src/function/BasicLinearFunction.cpp"],
  [("expression templates", "AffineExprOperators.h"), ("conversion to function", "BasicLinearFunction(AffineExpr)"), ("relations", "ProtoTask.h operators")], [], ["function value/jacobian/b", "task type and rhs"])

p("C16", "Index ranges and variable partitions obey interval algebra",
  "Intersection, containment and comparison of ranges agree with the sets of integers they denote, including empty and touching ranges. Partitioning variable vectors yields pieces that are pairwise disjoint, whose union is exactly the union of the inputs, each input being a union of pieces and each piece being contained or disjoint from each input.",
  ["inputs"],
  "every set of ranges and of (sub-)variables",
  "RangeTest/VariableVectorPartition tests check some pairs.",
  ["include/tvm/Range.h", "include/tvm/internal/VariableVectorPartition.h", "src/internal/RangeCounting.cpp"],
  [("range operators", "Range.h"), ("partition", "VariableVectorPartition")], [], ["Range operators", "VariableVectorPartition iteration"])

p("C17", "Compiled assignments compute exactly the requested assignment on every run",
  "For every kind of assignment (copy, add, subtract, min, max), weight, matrix multiplication and source, running a compiled assignment sets the target to the requested combination of the current source, weight, multiplier and target values and touches nothing else. This remains true after changing the source, the target or the weight, and for copies of it. (The custom multiplier, which no code uses, is left out.)",
  ["configurations", "inputs", "histories"],
  "every combination of template options, any sizes (including empty) and values, any history of re-targeting, weight changes and runs",
  "CompiledAssignmentTest checks each option once with random data; re-targeting and composition over a history are barely covered.",
  ["include/tvm/scheme/internal/CompiledAssignment.h", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h"],
  [("template caches", "CompiledAssignment.h"), ("type-erased wrapper", "CompiledAssignmentWrapper.h")], [], ["target content after run()"])

p("C18", "Pair tokens and callbacks: linked at most one-to-one, symmetric, safely released",
  "A pair token is at all times either alone or linked with exactly one other token that is linked back with it, through any sequence of pairing, moving, assigning and destroying; destroying or moving one never leaves the other linked to a dead object. A callback runs on every trigger between its registration and the release of its token, in registration order, and never afterwards. (A callback registered while callbacks are run may or may not be part of that run; assigning a token to itself by move may release its pair.)",
  ["histories"],
  "every sequence of construct/pair/move/assign/destroy and register/run/release, including registering, running, releasing or destroying from within a callback",
  "PairElementTokenTest/CallbackManagerTest have a few scripted sequences.",
  ["include/tvm/internal/PairElementToken.h", "include/tvm/internal/CallbackManager.h"],
  [("token moves", "PairElementToken"), ("run with lazy removal", "CallbackManager::run")],
  [("otherPairElement_", "link", "PairElementToken")], ["paired()", "isPairedWith()", "callback runs"])

p("C19", "Linear functions: value, velocity, drift match A x + b for current values",
  "A linear or identity function gives, at each update, value = sum A_i x_i + b, velocity = sum A_i dot(x_i), zero normal acceleration and drift, for the current matrices, b and variable values, whatever the variables (including sub-variables and overlapping ones), and jacobians of a sub-variable are the corresponding columns. Setting A or b of one variable leaves the others unchanged, and wrong sizes or unknown variables are refused without changing anything.",
  ["inputs", "histories"],
  "every set of variables, every sequence of A/b/value changes and updates",
  "BasicLinearFunctionTest/FunctionTest use a handful of functions.",
  ["include/tvm/function/abstract/LinearFunction.h", "src/function/LinearFunction.cpp", "src/function/BasicLinearFunction.cpp", "src/function/IdentityFunction.cpp", "include/tvm/internal/FirstOrderProvider.h", "src/internal/FirstOrderProvider.cpp", "src/constraint/BasicLinearConstraint.cpp"],
  [("updateValue/updateVelocity", "LinearFunction.cpp"), ("jacobian map", "FirstOrderProvider.cpp")], [("jacobian_", "map of jacobians", "FirstOrderProvider")], ["value()", "velocity()", "jacobian(x)"])

p("C20", "Solve writes the solution back; unsupported tasks are refused without damage",
  "After a solve every variable of the problem (the solved derivative of each variable, and nothing else) holds exactly the value the solver returned for it, no other variable is touched, and solve reports the solver's success or failure; a later solve is not affected by an earlier failure. A task whose type, priority or violation evaluation the scheme does not support is refused with an exception, leaves all variables unchanged, and the problem stays usable once that task is removed.",
  ["histories", "fault_sequences", "configurations"],
  "every history of solves with success and failure of the underlying solver, every combination of requirements",
  "Solver failures and write-back are never tested offline (solver tests are not run).",
  ["src/scheme/WeightedLeastSquares.cpp", "src/solver/LeastSquareSolver.cpp", "include/tvm/scheme/abstract/ResolutionScheme.h", "src/scheme/SchemeAbilities.cpp", "include/tvm/scheme/internal/ProblemComputationData.h"],
  [("solve and write back", "ResolutionScheme::solve, ProblemComputationData::setVariablesToSolution"), ("abilities check", "SchemeAbilities::check")], [], ["variables' values", "return value of solve", "exceptions"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
