------------------------------ MODULE GenGraph -------------------------------
(***************************************************************************)
(* Diagrams as plain graphs: nodes is a sequence of kinds, edges a         *)
(* sequence of pairs of node numbers (at most one per ordered pair, loops  *)
(* on one node allowed).  Exhaustive: all graphs with N nodes.  Random:    *)
(* graphs grown step by step in one of several shapes.                     *)
(* For every graph the operations OPS are carried out on the real code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

CONSTANTS EXHAUSTIVE, N, MAXN, MAXE, KINDSEQ, OPS, ROUTES

VARIABLES nodes, edges, phase, shape
gvars == <<nodes, edges, phase, shape>>
Pick(S) == RandomElement(S)
Kind(k) == KINDSEQ[Pick(DOMAIN KINDSEQ)]

(* a graph of the exhaustive family is given by the number of its edge set *)
AllPairs == SetToSeq((1..N) \X (1..N))
RECURSIVE Bits(_, _)
Bits(v, k) == IF v = 0 THEN <<>> ELSE (IF v % 2 = 1 THEN <<AllPairs[k]>> ELSE <<>>) \o Bits(v \div 2, k + 1)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
CONSTANTS FROM, UPTO   \* which part of the family

InitAll == /\ \E v \in FROM..UPTO : edges = (LET b == Bits(v, 1) IN IF v % 3 = 0 THEN Reverse(b) ELSE b)
           /\ nodes = [k \in 1..N |-> Kind(k)] /\ phase = "done" /\ shape = "all"

Free == {<<a, b>> \in (1..Len(nodes)) \X (1..Len(nodes)) : ~ \E k \in DOMAIN edges : edges[k] = <<a, b>>}
Forward == {p \in Free : p[1] < p[2]}
(* a row of splits and joins: blocks of a split, its branches and their join *)
RECURSIVE Blocks(_, _)
Blocks(from, n) ==
  IF n - from < 4 THEN [k \in 1..n - from |-> <<from + k - 1, from + k>>]
  ELSE LET w == Pick(2..(IF n - from - 1 > 6 THEN 6 ELSE n - from - 1))
           join == from + w + 1
       IN IF join > n THEN <<>>
          ELSE [k \in 1..w |-> <<from, from + k>>] \o [k \in 1..w |-> <<from + k, join>>] \o Blocks(join, n)
(* several chains beside each other *)
Chains(n) == LET w == Pick(2..4) IN SelectSeq([k \in 1..n |-> <<k, k + w>>], LAMBDA e : e[2] <= n)
(* a tree: every node but the first hangs on an earlier one; or the other way round *)
Tree(n) == [k \in 1..n - 1 |-> <<Pick((IF k > 3 THEN k - 3 ELSE 1)..k), k + 1>>]
InitRand == nodes = <<>> /\ edges = <<>> /\ phase = "nodes" /\ shape = ""
(* nodes are not always made in the order of the flows, nor flows in the order of their nodes *)
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})
Perm(q) == IF Pick(1..2) = 1 THEN [k \in DOMAIN nodes |-> k] ELSE Shuffle(DOMAIN nodes)
Relabel(q, es) == LET t == [k \in DOMAIN es |-> <<q[es[k][1]], q[es[k][2]]>>]
                  IN IF Pick(1..2) = 1 THEN t ELSE LET o == Shuffle(DOMAIN t) IN [k \in DOMAIN t |-> t[o[k]]]
Grow ==
  \/ /\ phase = "nodes"
     /\ \E n \in {Pick(1..MAXN)}, s \in {IF MAXE = 0 THEN Pick({"chain", "chains", "chains", "tree", "roots"}) ELSE Pick({"any", "dag", "dag", "chain", "chain", "loops", "branch", "blocks", "blocks", "chains", "tree", "roots"})} :
        \E ns \in {[k \in 1..n |-> Kind(k)]} :
          /\ nodes' = ns /\ shape' = s
          /\ edges' = IF s \in {"chain", "loops"} THEN [k \in 1..n - 1 |-> <<k, k + 1>>]
                      ELSE IF s = "branch" /\ n > 2 THEN [k \in 1..n - 2 |-> <<1, k + 1>>] \o [k \in 1..n - 2 |-> <<k + 1, n>>]
                      ELSE IF s = "blocks" THEN Blocks(1, n)
                      ELSE IF s = "chains" THEN Chains(n)
                      ELSE IF s \in {"tree", "roots"} THEN LET t == Tree(n) IN IF s = "tree" THEN t ELSE [k \in DOMAIN t |-> <<n + 1 - t[k][2], n + 1 - t[k][1]>>]
                      ELSE <<>>
     /\ phase' = "edges"
  \/ /\ phase = "edges"
     /\ LET C == IF shape = "dag" THEN Forward ELSE Free IN
        IF C = {} \/ Len(edges) >= MAXE \/ Pick(1..(IF shape \in {"blocks", "chains", "tree", "roots"} THEN 2 ELSE 8)) = 1
        THEN phase' = "done" /\ \E q \in {Perm(0)} : edges' = Relabel(q, edges) /\ UNCHANGED <<nodes, shape>>
        ELSE \E e \in {Pick(C)} : edges' = Append(edges, e) /\ UNCHANGED <<nodes, phase, shape>>

Init == IF EXHAUSTIVE THEN InitAll ELSE InitRand
Next == ~ EXHAUSTIVE /\ Grow
Spec == Init /\ [][Next]_gvars

AtMostOne == \A j, k \in DOMAIN edges : j # k => edges[j] # edges[k]

Pt(low) == <<Pick(low..low + ROUTES), Pick(low..low + ROUTES)>>
Route(low) == [j \in 1..Pick({2, 2, 3, 3, 4, 6}) |-> Pt(low)]
SetWps(low) == [op |-> "setwps", o |-> "a", scale |-> Pick({1, 1, 2, 4, 1024, 65536}),
                wps |-> [k \in DOMAIN edges |-> <<edges[k][1], edges[k][2], Route(low)>>]]
OpsOf == <<[op |-> "graph", o |-> "a", nodes |-> nodes, edges |-> edges]>>
         \o (IF ROUTES > 0 THEN <<SetWps(Pick({0, 0, -3, 995}))>> ELSE <<>>)
         \o [k \in DOMAIN OPS |-> [op |-> OPS[k], o |-> "a", pre |-> Pick({"yes", "no"})]]
Emit == phase = "done" => PrintT("SCN " \o ToJson([ops |-> OpsOf]))
=============================================================================
