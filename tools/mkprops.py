#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
CE = "src/PLASMA/ConstraintEngine/"
PD = "src/PLASMA/PlanDatabase/"
TN = "src/PLASMA/TemporalNetwork/"
RE = "src/PLASMA/RulesEngine/"
SO = "src/PLASMA/Solvers/"
RS = "src/PLASMA/Resource/"
ND = "src/PLASMA/NDDL/"
UT = "src/PLASMA/Utils/"

p("C01", "Constraint propagation never discards a solution",
  "Whenever propagation ends, every assignment that takes each variable's value from its base domain (or its specified value) and satisfies all active constraints still lies inside the current domains. In particular the engine reports inconsistency only if no such assignment exists.",
  ["histories", "inputs"],
  "Every network built from the library constraints over finite domains, and every history of creating and deleting constraints, specifying, resetting and restricting variables, with propagation at any points.",
  "The tests propagate a few dozen hand-made networks and compare hand-computed domains; soundness quantifies over all networks, domains, constraint mixes and orders of change.",
  [CE+"base/ConstraintEngine.cc", CE+"component/Constraints.cc", CE+"component/Propagators.cc", CE+"component/EquivalenceClassCollection.cc", CE+"component/Domains.cc"],
  [("per-constraint pruning rules", "Constraints.cc handleExecute"), ("propagation loop and emptying", "ConstraintEngine.cc doPropagate/notify")],
  ["current domain of each variable and the consistency verdict after each propagation"])
p("C02", "A fully bound consistent network satisfies every active constraint",
  "If propagation ends without reporting inconsistency and every variable in the scope of an active constraint is bound to one value, those values satisfy that constraint's mathematical meaning. An unsatisfied fully bound constraint is therefore always reported as an inconsistency.",
  ["histories", "inputs"],
  "Every library constraint, every scope of finite-domain variables, every order in which the variables become bound (by specification, by propagation or by their base domain), including constraints skipped as redundant or deactivated.",
  "Each constraint is tested on a handful of value tuples; execution skipping (change-type filters, redundancy, equivalence classes) depends on the order of events.",
  [CE+"base/ConstraintEngine.cc", CE+"base/Constraint.cc", CE+"component/Constraints.cc", CE+"component/Propagators.cc"],
  [("constraint execution and redundancy tests", "Constraint.cc, Constraints.cc"), ("agenda handling", "Propagators.cc")],
  ["current domains, specified flags and consistency verdict"])
p("C03", "Derived domains depend only on the current network, not on its history",
  "After propagation, the derived domain of every variable and the consistency verdict are those of a freshly built engine holding the same variables, base domains, specified values and active constraints. Retracting any set of specifications and constraints, in any order, therefore restores exactly the domains the remaining network implies. (Deactivating a constraint or opening a domain stops inference but takes nothing back; the maximum, minimum and absolute-value constraints may stop at different sound results.)",
  ["histories"],
  "Every sequence of create/delete constraint, deactivate/reactivate, specify, reset and base-domain changes, propagated at arbitrary points, including through inconsistent intermediate states.",
  "Relaxation bookkeeping is cycle- and order-sensitive; tests exercise a few relax sequences each from a clean state.",
  [CE+"base/ConstraintEngine.cc", CE+"base/ConstrainedVariable.cc", CE+"component/EquivalenceClassCollection.cc", CE+"component/Propagators.cc"],
  [("relaxation closure", "ConstraintEngine.cc handleRelax / removeElement"), ("equality classes", "EquivalenceClassCollection.cc")],
  ["current domains in the live engine and in a rebuilt one"])
p("C04", "Variables follow their specify/reset/open/close/restrict/deactivate contract",
  "A variable's current domain is always within its base domain; specifying fixes it to a base value until reset, reset returns it to what base domain and constraints imply, base restriction is permanent, members may be added only while open, and a value once specified is what is reported. Deactivations of a constraint or variable nest: it participates again exactly when as many reactivations as deactivations have been made.",
  ["histories"],
  "All sequences of these operations on variables of every finite domain kind, with and without constraints, before or after propagation.",
  "The tests try each operation in one or two fixed sequences; interactions (specify then restrict, nested deactivation, close of a singleton) are combinatorial.",
  [CE+"base/ConstrainedVariable.cc", CE+"base/Constraint.cc", CE+"base/Domain.cc"],
  [("specification state", "ConstrainedVariable.cc specify/reset/close/open"), ("deactivation counters", "ConstrainedVariable.cc, Constraint.cc deactivate/undoDeactivation")],
  ["variable accessors: base domain, current domain, specified flag and value, closed flag, active flag"])
p("C05", "Domain operations are exactly set operations",
  "Every domain kind (enumerated, interval, integer interval, boolean, string/symbol, singleton or empty, with finite or infinite bounds) behaves as the set it denotes: membership, size, bounds, intersection, equating, difference, subset and intersection tests, insertion, removal and relaxation give the set-theoretic result and report truthfully whether the domain changed.",
  ["inputs"],
  "Every pair of comparable domains, of the same or different kinds, open or closed, and every sequence of operations on them.",
  "Case analysis over representation kinds is tested on selected pairs only; the claim is over all pairs and operation sequences.",
  [CE+"base/Domain.cc", CE+"component/Domains.cc"],
  [("enumerated and interval representations", "Domains.cc")],
  ["domain accessors and operation results"])
p("C06", "Change notifications truthfully describe every change",
  "Each change of a variable's domain is announced by a notification whose kind matches what happened (bound moved, value removed, became single, emptied, relaxed, reset, opened, closed), and no change goes unannounced; creation, removal, execution, activation and deactivation of constraints and variables are announced, with propagation start and end bracketing propagation. An observer can reconstruct the engine's state from the notifications alone (values inserted into an open domain and changes of inactive variables excepted; an activation may be repeated for a constraint found redundant).",
  ["histories"],
  "All histories of operations over enumerated and interval variables with listeners attached to the engine and to the variables.",
  "Rule execution, flaw detection and profiles all depend on these events, but the tests only count a few of them.",
  [CE+"component/Domains.cc", CE+"base/Domain.cc", CE+"base/DomainListener.cc", CE+"base/ConstraintEngine.cc", CE+"base/ConstrainedVariable.cc"],
  [("domain listener events", "Domains.cc notifyChange"), ("engine listener publication", "ConstraintEngine.cc publish")],
  ["engine listener callbacks"])
p("C07", "Violation-tolerant mode isolates exactly the violated constraints",
  "When violations are tolerated, propagation never leaves an empty domain nor reports inconsistency: violated constraints are set aside and counted, and every constraint that is not set aside is satisfied once its variables are bound. As long as the network has been satisfiable nothing is violated and the domains are those of the ordinary mode; resetting a variable of the only violated constraint so that the network becomes satisfiable clears the violation.",
  ["histories"],
  "All histories of specify, reset, add and remove with violations allowed, for every limit.",
  "Only one or two toy conflicts are tested; which constraint is blamed depends on execution order.",
  [CE+"base/ConstraintEngine.cc"],
  [("violation manager", "ConstraintEngine.cc ViolationMgrImpl")],
  ["violated constraints, total violation, current domains"])
p("T01", "Temporal network bounds and consistency are exact",
  "After propagation the network is reported consistent exactly when its difference constraints have a solution, and then the bounds of every time point are the exact earliest and latest times over all solutions. This holds whatever sequence of additions, removals and re-narrowings of constraints and time points led there, including through inconsistent networks.",
  ["histories", "inputs"],
  "All simple temporal networks with integer bounds, built and modified incrementally in any order with propagation at any points.",
  "The incremental shortest-path and dynamic Bellman-Ford code has many order-dependent paths; the tests cover a few fixed networks.",
  [TN+"base/DistanceGraph.cc", TN+"base/TemporalNetwork.cc", TN+"base/queues.cc"],
  [("incremental Bellman-Ford, Dijkstra", "DistanceGraph.cc"), ("incremental bound propagation", "TemporalNetwork.cc")],
  ["timepoint bounds, consistency verdict"])
p("T02", "Temporal distance and ordering queries are exact",
  "Distance bounds between any two time points are the tightest bounds implied by the network, and the derived queries (is one distance below a bound, signs of distances, is one point always before another) agree with them. Queries never change what later queries or propagation report.",
  ["histories", "inputs"],
  "All consistent networks, all pairs of time points, after any sequence of edits and interleaved queries.",
  "Query caching and bounded searches are only spot-checked.",
  [TN+"base/DistanceGraph.cc", TN+"base/TemporalNetwork.cc"],
  [("bounded Dijkstra and path search", "DistanceGraph.cc, TemporalNetwork.cc calcDistance*")],
  ["distance queries"])
p("T03", "Plan time variables equal the exact windows of their temporal constraints",
  "After propagation the start, end and duration domains of all tokens are the exact minimal windows implied by all tokens' durations, base domains, specified times and temporal constraints, and inconsistency is reported exactly when these are unsatisfiable. The temporal advisor's answers about precedence, fitting and concurrency agree with the same network.",
  ["histories", "inputs"],
  "All sets of interval tokens with finite horizons, all temporal constraint kinds, all histories of adding and retracting constraints and specifying and resetting times.",
  "Synchronisation between the constraint engine and the temporal network is edge-triggered; tests use a few two-or-three token cases.",
  [TN+"component/TemporalPropagator.cc", TN+"component/STNTemporalAdvisor.cc", TN+"base/TemporalNetwork.cc", TN+"ModuleTemporalNetwork.cc"],
  [("two-way synchronisation", "TemporalPropagator.cc"), ("advisor", "STNTemporalAdvisor.cc")],
  ["token time variable domains, advisor answers, consistency"])
p("P01", "Tokens follow their activation life cycle and cancelling restores it",
  "A token is always in exactly one of the states inactive, active, merged or rejected, changes state only as permitted (rejection only where allowed, merging only with an active token of a compatible kind), and its state variable, master/slave links and the active-token index agree with that. Cancelling a decision returns the token and everything depending on it (tokens merged on it, subordinate tokens) to the state before the decision.",
  ["histories"],
  "All histories of create, activate, merge, reject, cancel and delete over masters, slaves and free tokens.",
  "Cascades (cancelling a supporter of merged tokens that own slaves) are combinatorial; the tests walk a few.",
  [PD+"base/Token.cc", PD+"base/PlanDatabase.cc", PD+"base/DbClient.cc"],
  [("state changes", "Token.cc activate/merge/reject/cancel"), ("active token index", "PlanDatabase.cc insertActiveToken/removeActiveToken")],
  ["token state, active token, merged set, token sets by predicate"])
p("P02", "Merging conjoins two tokens and splitting restores both exactly",
  "While merged, the supporting token's variables satisfy every restriction and constraint of all tokens merged with it; after splitting, in any order, each token again has exactly the variables' domains and constraints it would have had without the merge. Constraints posted or retracted while merged take effect on the supporting token and persist correctly after the split.",
  ["histories"],
  "All histories of merges and splits interleaved with specifications, resets, base restrictions and constraint additions and deletions on any of the tokens.",
  "Constraint migration bookkeeping depends on ordering of changes before, during and after merges; tests check a few fixed orders.",
  [PD+"base/MergeMemento.cc", PD+"base/UnifyMemento.cc", PD+"base/StackMemento.cc", PD+"base/Token.cc", "src/PLASMA/PlanDatabase/base/TokenVariable.hh"],
  [("constraint migration", "MergeMemento.cc"), ("shared base/specified domains", "TokenVariable.hh handleBase/handleSpecified")],
  ["token variable domains"])
p("P03", "Timelines are totally ordered and offer exactly the feasible orderings",
  "The tokens ordered on a timeline always form one sequence in which each token ends before the next starts, whatever tokens are ordered, freed or removed; freeing or removing a token relaxes exactly its own orderings. The ordering choices offered for a token are exactly the positions in the sequence that are temporally possible, and the tokens reported as still needing ordering are exactly the active ones that may be on a timeline and are not yet ordered there.",
  ["histories"],
  "All histories of activation, ordering, freeing, cancelling, deleting and time narrowing over several tokens and timelines.",
  "Removal from the middle with explicit and implicit orderings has many cases; tests sample few.",
  [PD+"component/Timeline.cc", PD+"base/Object.cc", PD+"base/ObjectTokenRelation.cc", PD+"base/PlanDatabase.cc"],
  [("sequence maintenance", "Timeline.cc"), ("ordering bookkeeping", "Object.cc"), ("to-order set", "PlanDatabase.cc, ObjectTokenRelation.cc")],
  ["sequence, ordering choices, tokens to order, time windows"])
p("P04", "Merge candidates are exactly the compatible active tokens",
  "The candidates offered for an inactive token are exactly the active tokens of the same or a derived predicate whose variables' domains all intersect its own and, when the exact test is requested, that can be concurrent with it. Limits on the number of results only truncate this set.",
  ["histories", "inputs"],
  "All plan databases and all inactive tokens, with any limit and either test.",
  "Predicate inheritance, domain kinds and temporal distances combine; the tests check small fixed databases.",
  [PD+"base/PlanDatabase.cc", TN+"component/STNTemporalAdvisor.cc"],
  [("candidate filtering", "PlanDatabase.cc getCompatibleTokens")],
  ["compatible token list"])
p("P05", "Object variables range over exactly the right objects",
  "An object variable or token's object variable of a type ranges over exactly the objects of that type and its subtypes that exist (while the type is open new ones join, once closed they cannot), looking up objects by name, type or predicate finds exactly the matching objects, and type and predicate inheritance is the reflexive transitive closure of the declared hierarchy. Deleting an object removes it, and its components, from all of these.",
  ["histories"],
  "All declared type hierarchies and all interleavings of object creation, variable creation, lookups, deletions and closing of types.",
  "Tests use a single fixed schema and mostly close the database right after populating it.",
  [PD+"base/PlanDatabase.cc", PD+"base/Schema.cc", PD+"base/Object.cc", PD+"base/ObjectType.cc"],
  [("object indexes", "PlanDatabase.cc notifyAdded/notifyRemoved"), ("type hierarchy", "Schema.cc")],
  ["object variable domains, lookups"])
p("P06", "Deleting removes an entity and exactly its dependants",
  "Deleting a token, object, variable or constraint removes it together with exactly the entities that depend on it (a master's slaves, a token's variables, a variable's constraints), leaves every other entity in place and usable, and no lookup or index mentions it afterwards. Shutting a database down leaves no entities behind.",
  ["histories"],
  "All histories of creation and deletion, in every token state and order.",
  "Deletion cascades in mixed states are only tested in a handful of shapes.",
  [UT+"base/Entity.cc", UT+"base/IdTable.cc", PD+"base/Token.cc", PD+"base/PlanDatabase.cc", CE+"base/ConstraintEngine.cc"],
  [("entity table", "Entity.cc"), ("cascades", "Token.cc, Object.cc, ConstrainedVariable.cc handleDiscard")],
  ["entity registry, engine and database collections"])
p("P07", "Replaying a transaction log rebuilds an equal database",
  "Playing the transactions recorded while a database was built and edited into a fresh engine produces an equivalent database: same objects, tokens with the same states, links and domains, same variables and constraints.",
  ["histories"],
  "All histories of client transactions, including cancels, resets, frees and deletions.",
  "Tests replay a few hand-written transactions one by one.",
  [PD+"component/DbClientTransactionLog.cc", PD+"component/DbClientTransactionPlayer.cc", PD+"base/DbClient.cc"],
  [("log writing", "DbClientTransactionLog.cc"), ("log playing", "DbClientTransactionPlayer.cc")],
  ["projections of both databases"])
p("R01", "Model rules are applied exactly when their token is active and guards hold",
  "For every active token, the subgoals, constraints and local variables of its predicate's rules (inherited ones included) exist exactly once each: unconditional ones always, guarded ones exactly while their guard is decided and satisfied, loops once per matching element. When the guard is retracted or the token is cancelled or merged, everything they introduced is withdrawn.",
  ["programs", "histories"],
  "All rule bodies with nested guards and else branches and loops, all histories of activating, binding, resetting, cancelling and merging.",
  "Rule tests use a few fixed rule shapes and mostly the forward direction only.",
  [RE+"base/RuleInstance.cc", RE+"base/RulesEngine.cc", RE+"base/RuleVariableListener.cc", RE+"base/Rule.cc", ND+"component/Interpreter.cc"],
  [("guard evaluation and undo", "RuleInstance.cc"), ("scheduling", "RulesEngine.cc")],
  ["slave tokens of each token, constraints present"])
p("R02", "A model text yields exactly the declared types, objects and facts",
  "Loading a model creates exactly what it declares: types with their inheritance, members, constructors and predicates, objects with the member values their constructors compute, variables with the declared domains, and the initial facts, goals and constraints. Erroneous input is reported as an error and not silently accepted.",
  ["programs"],
  "All well-formed programs in the modelling language, and ill-formed variants of them.",
  "The regression models are fixed files whose output is compared as text.",
  [ND+"component/NddlInterpreter.cc", ND+"component/Interpreter.cc", ND+"base/antlr/NDDL3.g", ND+"base/antlr/NDDL3Tree.g"],
  [("parser and tree walker", "NDDL3.g, NDDL3Tree.g"), ("interpreter", "Interpreter.cc")],
  ["schema and database contents after loading"])
p("S01", "Solver verdicts are right: plans are flawless, exhaustion means no plan",
  "When the solver reports success, the plan is consistent, no flaw in its scope remains and all constraints hold; when it reports exhaustion, the problem has no solution; within unlimited steps on a finite problem it always reports one or the other.",
  ["inputs", "histories"],
  "All finite problems made of variables, constraints, goals and timelines, for every flaw-handling configuration.",
  "The tests solve a few hand-made problems; the verdict ranges over all problems.",
  [SO+"base/Solver.cc", SO+"base/FlawManager.cc", SO+"component/UnboundVariableDecisionPoint.cc", SO+"component/OpenConditionDecisionPoint.cc", SO+"component/ThreatDecisionPoint.cc", SO+"component/ValueSource.cc"],
  [("step and backtrack", "Solver.cc doStep/backtrack"), ("choice enumeration", "decision points")],
  ["solver verdict, final domains and tokens"])
p("S02", "Solver search is disciplined: limits, depth, undo and listeners agree",
  "Depth always equals the number of standing decisions; every decision undone returns the database to exactly the state before it, so resetting or backing up any number of steps restores the corresponding earlier state; the step limit and depth limit stop the search as documented; and the events announced to listeners replay to the same decision stack.",
  ["histories", "configurations"],
  "All interleavings of stepping, solving with limits, resetting, backjumping and clearing on all problems.",
  "Tests check one reset and one backjump on one model.",
  [SO+"base/Solver.cc", SO+"base/SolverDecisionPoint.cc", SO+"component/UnboundVariableDecisionPoint.cc", SO+"component/ThreatDecisionPoint.cc", SO+"component/OpenConditionDecisionPoint.cc"],
  [("decision stack", "Solver.cc")],
  ["depth, step count, listener events, database projection"])
p("S03", "The solver sees exactly the flaws in scope and takes the best one first",
  "At any time the flaws the solver lists are exactly the unbound variables, undecided tokens and unordered tokens that no configured filter excludes, whatever history of changes, solving and external edits led there. The decision taken next is one of best priority among them under the configured handlers.",
  ["histories", "configurations"],
  "All databases, filter and handler configurations, and interleavings of external edits with solving.",
  "Incremental flaw maintenance from events is tested on single changes.",
  [SO+"base/FlawManager.cc", SO+"component/UnboundVariableManager.cc", SO+"component/OpenConditionManager.cc", SO+"component/ThreatManager.cc", SO+"base/MatchingEngine.cc", SO+"component/Filters.cc"],
  [("candidate maintenance", "UnboundVariableManager.cc, OpenConditionManager.cc"), ("matching", "MatchingEngine.cc, MatchingRule.cc"), ("selection", "FlawManager.cc next")],
  ["flaw iteration, open decisions, chosen decision"])
p("Q01", "Resource usage profiles are exact envelopes of what can happen",
  "At every time the profile's level bounds equal those computed from scratch from the current transactions' time windows and quantity ranges: the timetable envelope and cumulative totals for the timetable profile, the grounded level for the grounded profile. Incremental maintenance under adding, removing, restricting and relaxing transactions never makes a difference.",
  ["histories", "inputs"],
  "All sets of producers and consumers with interval times and quantities, and all edit histories.",
  "Instant bookkeeping is incremental; the tests check areas and sums of a few fixed profiles.",
  [RS+"base/Profile.cc", RS+"base/Instant.cc", RS+"component/TimetableProfile.cc", RS+"component/GroundedProfile.cc"],
  [("instants and recomputation interval", "Profile.cc"), ("level computation", "TimetableProfile.cc")],
  ["profile level queries and instants"])
p("Q02", "Resource violations and flaws are reported exactly when limits can fail",
  "A resource is reported violated exactly when some instant's best-case level, rate or total already exceeds a limit, and flawed exactly at instants where some remaining schedule could exceed one; a plan reported free of both on grounded times respects all limits. Reports disappear when the cause is removed.",
  ["histories", "inputs"],
  "All reservoirs, reusables and unary resources with limits, all token sets and edit histories.",
  "Tests trigger each kind of violation once.",
  [RS+"component/GenericFVDetector.cc", RS+"component/OpenWorldFVDetector.cc", RS+"component/ClosedWorldFVDetector.cc", RS+"base/Resource.cc", RS+"component/Reusable.cc", RS+"component/Reservoir.cc"],
  [("violation and flaw detection", "GenericFVDetector.cc"), ("tokens to transactions", "Reservoir.cc, Reusable.cc")],
  ["consistency verdict, flawed instants, violations"])
p("Q03", "Flow profiles give the tightest level bounds under the orderings",
  "With flow-based profiles the level bounds at every time are the exact extremes over all schedules consistent with the transactions' windows and the temporal orderings between them, and the incremental variant gives the same bounds as the one recomputed from scratch.",
  ["histories", "inputs"],
  "All transaction sets with precedence, strict and coincident orderings, and all edit histories.",
  "Max-flow envelopes are tested on a few fixed graphs.",
  [RS+"component/FlowProfile.cc", RS+"component/IncrementalFlowProfile.cc", RS+"component/FlowProfileGraph.cc", RS+"component/BoostFlowProfileGraph.cc", RS+"component/MaxFlow.cc"],
  [("resource envelope by max flow", "FlowProfile.cc, FlowProfileGraph.cc")],
  ["profile level queries"])
p("U01", "Extended numbers obey arithmetic with infinities and never wrap silently",
  "Integer and real values extended with plus and minus infinity compare, add, subtract, multiply, divide and convert as in the extended number line: infinities absorb finite values, order is total, and conversions preserve value and infinity. Undefined combinations or overflows are reported and never produce a wrong finite number.",
  ["inputs"],
  "All operand pairs including the infinities and values next to the representation limits.",
  "Unit tests sample some operand pairs.",
  [UT+"Number.hh", UT+"NumberHash.hh"],
  [("extended arithmetic", "Number.hh eint/edouble")],
  ["operator results"])
p("U02", "Entities, interned strings and priority queues keep their identity contracts",
  "Every entity key is unique and resolves to its live entity until deletion and to nothing afterwards; reference counts keep an entity alive exactly as long as referenced; equal strings intern to equal keys and different strings to different ones, and order follows the documented rule; a priority queue returns its entries in priority order after any updates.",
  ["histories", "inputs"],
  "All sequences of creation, reference, release, deletion, interning and queue updates.",
  "Unit tests check few entities and strings.",
  [UT+"base/Entity.cc", UT+"base/LabelStr.cc", UT+"base/IdTable.cc", UT+"base/Id.hh", UT+"base/HashPriorityQueue.hh"],
  [("entity registry", "Entity.cc"), ("string interning", "LabelStr.cc")],
  ["lookups and comparison results"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
