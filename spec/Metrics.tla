------------------------------ MODULE Metrics -------------------------------
(***************************************************************************)
(* Complexity metrics by their definitions, and longest paths.             *)
(***************************************************************************)
EXTENDS Bpmn

CountT(d, t) == Cardinality(NodesOfType(d, t))
CountIn2(d, S) == Cardinality({n \in DOMAIN d.nodes : d.nodes[n].type \in S})
Kinds(d) == {d.nodes[n].type : n \in DOMAIN d.nodes}
IntermediateTypes == {"intermediateCatchEvent", "intermediateThrowEvent"}
ActivityTypes == {"task", "subProcess"}
Gateways(d) == {n \in DOMAIN d.nodes : d.nodes[n].type \in GatewayTypes}

Durfee(d) == Max({0} \cup {k \in 1..Cardinality(Kinds(d)) : Cardinality({t \in Kinds(d) : CountT(d, t) >= k}) >= k})
(* the p most frequent kinds together: the largest total over p kinds *)
RECURSIVE SumOver(_, _)
SumOver(d, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN CountT(d, t) + SumOver(d, S \ {t})
TopTotal(d, p) == Max({SumOver(d, S) : S \in kSubset(p, Kinds(d))})
PerfectSquare(d) == Max({0} \cup {p \in 1..Cardinality(Kinds(d)) : TopTotal(d, p) >= p * p})
(* flows touching a gateway, summed over the gateways; a loop touches twice *)
Touches(d, g) == Cardinality({f \in DOMAIN d.flows : d.flows[f].src = g}) + Cardinality({f \in DOMAIN d.flows : d.flows[f].tgt = g})
GatewayDegreeSum(d) == MapThenSumSet(LAMBDA g : Touches(d, g), Gateways(d))
SameRatio(r, num, den) == r[2] > 0 /\ r[1] * den = num * r[2]

(* -------------------------------- paths ---------------------------------- *)
Sources(d) == {n \in DOMAIN d.nodes : \A f \in DOMAIN d.flows : d.flows[f].tgt # n}
Sinks(d) == {n \in DOMAIN d.nodes : \A f \in DOMAIN d.flows : d.flows[f].src # n}
Succ(d, n) == {d.flows[f].tgt : f \in {g \in DOMAIN d.flows : d.flows[g].src = n}}
IsTask(d, n) == d.nodes[n].type \in ActivityTypes
Max0(S) == IF S = {} THEN 0 ELSE Max(S)

RECURSIVE LongestFrom(_, _, _)
LongestFrom(d, n, seen) ==   \* nodes on a longest simple path from n to a sink; 0: there is none
  IF Succ(d, n) = {} THEN 1
  ELSE LET best == Max0({LongestFrom(d, m, seen \cup {n}) : m \in Succ(d, n) \ (seen \cup {n})})
       IN IF best = 0 THEN 0 ELSE best + 1
LongestLength(d) == Max0({LongestFrom(d, n, {}) : n \in Sources(d)})

RECURSIVE MostTasksFrom(_, _, _)
MostTasksFrom(d, n, seen) ==
  (IF IsTask(d, n) THEN 1 ELSE 0) + Max0({MostTasksFrom(d, m, seen \cup {n}) : m \in Succ(d, n) \ (seen \cup {n})})
MostTasks(d) == Max0({MostTasksFrom(d, n, {}) : n \in Sources(d)})

IsPath(d, p) == /\ \A i \in DOMAIN p : p[i] \in DOMAIN d.nodes
                /\ NoDup(p) /\ \A i \in 1..Len(p) - 1 : p[i+1] \in Succ(d, p[i])
FullPath(d, p) == p # <<>> /\ IsPath(d, p) /\ p[1] \in Sources(d) /\ p[Len(p)] \in Sinks(d)

(* is q the list of tasks, in order, on a simple path from n?  *)
RECURSIVE TasksAlong(_, _, _, _)
TasksAlong(d, n, seen, q) ==
  LET hit == IsTask(d, n)
      q2 == IF hit /\ q # <<>> /\ Head(q) = n THEN Tail(q) ELSE q
      ok == ~ hit \/ (q # <<>> /\ Head(q) = n)
  IN ok /\ (q2 = <<>> \/ \E m \in Succ(d, n) \ (seen \cup {n}) : TasksAlong(d, m, seen \cup {n}, q2))
TaskList(d, q) == q = <<>> \/ \E n \in Sources(d) : TasksAlong(d, n, {}, q)
=============================================================================
