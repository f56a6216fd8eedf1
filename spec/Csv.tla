--------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* Process spreadsheets.  A row is                                         *)
(*  [pre, n, short, activity, cond, sub, term, goto, order, who]           *)
(* pre  : the enclosing branches, outermost first, each [n, l]: branch l   *)
(*        of the split that stands at position n of its sequence           *)
(* n    : position in the innermost sequence                               *)
(* short: a one-row branch written without its trailing 1                  *)
(* goto : order text of the row it goes to, "" for other rows              *)
(***************************************************************************)
EXTENDS Bpmn

Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v",
             "w", "x", "y", "z">>
RECURSIVE Prefix(_)
Prefix(pre) == IF pre = <<>> THEN "" ELSE ToString(pre[1].n) \o pre[1].l \o Prefix(Tail(pre))
FullOrder(r) == Prefix(r.pre) \o ToString(r.n)
Order(r) == Prefix(r.pre) \o (IF r.short = "yes" THEN "" ELSE ToString(r.n))

IsGoto(r) == r.goto # ""
IsEnd(r) == r.term = "yes" /\ ~ (r.pre = <<>> /\ r.n = 0)
RowKind(r) == CASE r.pre = <<>> /\ r.n = 0 -> "startEvent" [] r.term = "yes" -> "endEvent"
                [] r.sub = "yes" -> "subProcess" [] OTHER -> "task"

(* ------------------------------- continuation ---------------------------- *)
At(rows, pre, n) == {k \in DOMAIN rows : rows[k].pre = pre /\ rows[k].n = n}
BranchFirst(rows, pre, n) ==   \* first rows of the branches at position n of the sequence pre
  {k \in DOMAIN rows : Len(rows[k].pre) = Len(pre) + 1 /\ SubSeq(rows[k].pre, 1, Len(pre)) = pre
                       /\ rows[k].pre[Len(pre) + 1].n = n /\ rows[k].n = 1}
NextInSequence(rows, k) == IF rows[k].short = "yes" THEN {} ELSE At(rows, rows[k].pre, rows[k].n + 1)
Branches(rows, k) == IF rows[k].short = "yes" THEN {} ELSE BranchFirst(rows, rows[k].pre, rows[k].n + 1)
Continuing(rows, k) ==   \* the levels that continue after the end of the branch of row k
  {i \in DOMAIN rows[k].pre : At(rows, SubSeq(rows[k].pre, 1, i - 1), rows[k].pre[i].n + 1) # {}}
MergeRow(rows, k) == LET i == Max(Continuing(rows, k)) IN
  CHOOSE m \in At(rows, SubSeq(rows[k].pre, 1, i - 1), rows[k].pre[i].n + 1) : TRUE

Mode(rows, k) ==
  CASE IsGoto(rows[k]) -> "goto"
    [] IsEnd(rows[k]) -> "end"
    [] NextInSequence(rows, k) # {} -> "seq"
    [] Branches(rows, k) # {} -> "split"
    [] Continuing(rows, k) # {} -> "merge"
    [] OTHER -> "dead"
Dead(rows) == {k \in DOMAIN rows : Mode(rows, k) = "dead"}
LostGotos(rows) == {k \in DOMAIN rows : IsGoto(rows[k]) /\ ~ \E j \in DOMAIN rows : ~ IsGoto(rows[j]) /\ Order(rows[j]) = rows[k].goto}

(* every row but the first is entered from somewhere *)
Entered(rows) ==
  LET from(k) == CASE Mode(rows, k) = "seq" -> NextInSequence(rows, k) [] Mode(rows, k) = "split" -> Branches(rows, k)
                   [] Mode(rows, k) = "merge" -> {MergeRow(rows, k)}
                   [] Mode(rows, k) = "goto" -> {j \in DOMAIN rows : Order(rows[j]) = rows[k].goto} [] OTHER -> {}
      hit == UNION {from(k) : k \in DOMAIN rows}
      direct == UNION {from(k) : k \in {j \in DOMAIN rows : ~ IsGoto(rows[j])}}
  IN \A k \in DOMAIN rows : Order(rows[k]) # "0" => IF IsGoto(rows[k]) THEN k \in direct ELSE k \in hit

(* -------------------------------- denotation ----------------------------- *)
(* conditions without the blanks around them *)
Trimmed(c) == CASE c \in {"yes ", " yes", " yes "} -> "yes" [] c \in {"no ", " no", " no "} -> "no"
                [] c \in {"else ", " else", " else "} -> "else" [] OTHER -> c
SplitKind(rows, S) ==
  LET conds == {Trimmed(rows[k].cond) : k \in S} IN
  IF Cardinality(S) = 2 /\ (conds = {"yes", "no"} \/ "else" \in conds) THEN "exclusiveGateway"
  ELSE IF conds = {""} THEN "parallelGateway" ELSE "inclusiveGateway"
SplitId(rows, k) == Order(rows[k]) \o "_split"
JoinId(rows, m) == Order(rows[m]) \o "_join"
(* the split whose branches meet before row m *)
JoinKind(rows, m) ==
  LET p == At(rows, rows[m].pre, rows[m].n - 2)
      S == BranchFirst(rows, rows[m].pre, rows[m].n - 1)
  IN IF p # {} /\ (\E k \in p : Mode(rows, k) = "split") THEN SplitKind(rows, S) ELSE "inclusiveGateway"

RowId(rows, k) == Order(rows[k])
Mergers(rows, m) == {k \in DOMAIN rows : Mode(rows, k) = "merge" /\ MergeRow(rows, k) = m}
Merged(rows) == {MergeRow(rows, k) : k \in {j \in DOMAIN rows : Mode(rows, j) = "merge"}}
Joins(rows) == {m \in Merged(rows) : Cardinality(Mergers(rows, m)) >= 2}

(* where a flow to row k goes: a goto row is replaced by the row it names *)
Target(rows, k) == IF IsGoto(rows[k]) THEN rows[k].goto ELSE RowId(rows, k)
Arrow(s, rows, k) == [src |-> s, tgt |-> Target(rows, k), cond |-> rows[k].cond]
Arrows(rows) ==
  LET of(k) == CASE Mode(rows, k) = "seq" -> {Arrow(RowId(rows, k), rows, CHOOSE j \in NextInSequence(rows, k) : TRUE)}
                 [] Mode(rows, k) = "split" -> {[src |-> RowId(rows, k), tgt |-> SplitId(rows, k), cond |-> ""]}
                                               \cup {Arrow(SplitId(rows, k), rows, j) : j \in Branches(rows, k)}
                 [] Mode(rows, k) = "merge" ->
                      LET m == MergeRow(rows, k) IN
                      IF m \in Joins(rows) THEN {[src |-> RowId(rows, k), tgt |-> JoinId(rows, m), cond |-> ""]}
                      ELSE {Arrow(RowId(rows, k), rows, m)}
                 [] OTHER -> {}
  IN UNION {of(k) : k \in DOMAIN rows} \cup {Arrow(JoinId(rows, m), rows, m) : m \in Joins(rows)}
FlowIdOf(a) == a.src \o "__" \o a.tgt

(* at most one arrow per ordered pair: the domain of the import *)
SingleArrows(rows) ==
  LET entries == UNION {CASE Mode(rows, k) = "seq" -> {<<RowId(rows, k), j>> : j \in NextInSequence(rows, k)}
                          [] Mode(rows, k) = "split" -> {<<SplitId(rows, k), j>> : j \in Branches(rows, k)}
                          [] Mode(rows, k) = "merge" -> LET m == MergeRow(rows, k) IN
                               {<<IF m \in Joins(rows) THEN JoinId(rows, m) ELSE RowId(rows, k), m>>}
                          [] OTHER -> {} : k \in DOMAIN rows}
  IN \A a, b \in entries : (a # b /\ a[1] = b[1]) => Target(rows, a[2]) # Target(rows, b[2])

GateOp(kind) == CASE kind = "exclusiveGateway" -> "exclusive" [] kind = "inclusiveGateway" -> "inclusive"
                  [] kind = "parallelGateway" -> "parallel" [] kind = "startEvent" -> "start" [] kind = "endEvent" -> "end"
                  [] kind = "subProcess" -> "subprocess" [] OTHER -> "task"
CsvNode(id, kind, name) == BuiltNode(Resolve([op |-> GateOp(kind), id |-> id, name |-> name, p |-> "process_1"]), id, ABSENT)

(* the nodes (without their lists of flows) and the flows a spreadsheet stands for *)
SheetNodes(rows) ==
  LET R == {k \in DOMAIN rows : ~ IsGoto(rows[k])}
      S == {k \in DOMAIN rows : Mode(rows, k) = "split"}
  IN [id \in {RowId(rows, k) : k \in R} |->
        LET k == CHOOSE j \in R : RowId(rows, j) = id IN CsvNode(id, RowKind(rows[k]), rows[k].activity)]
     @@ [id \in {SplitId(rows, k) : k \in S} |->
        LET k == CHOOSE j \in S : SplitId(rows, j) = id IN CsvNode(id, SplitKind(rows, Branches(rows, k)), "")]
     @@ [id \in {JoinId(rows, m) : m \in Joins(rows)} |->
        LET m == CHOOSE j \in Joins(rows) : JoinId(rows, j) = id IN CsvNode(id, JoinKind(rows, m), "")]
SheetFlows(rows) ==
  LET A == Arrows(rows) IN
  [id \in {FlowIdOf(a) : a \in A} |->
     LET a == CHOOSE b \in A : FlowIdOf(b) = id IN
     [id |-> id, name |-> "", process |-> "process_1", src |-> a.src, tgt |-> a.tgt, wps |-> <<>>,
      cond |-> IF a.cond = "" THEN [has |-> "no", id |-> ABSENT, text |-> ABSENT]
               ELSE [has |-> "yes", id |-> id \o "_cond", text |-> a.cond]]]

(* wiring only, kinds and conditions left out *)
Wires(flows) == {<<flows[f].src, flows[f].tgt>> : f \in DOMAIN flows}
IsGate(n) == n.type \in GatewayTypes
Bare(nodes) == [n \in DOMAIN nodes |-> [type |-> IF IsGate(nodes[n]) THEN "gateway" ELSE nodes[n].type, name |-> nodes[n].name]]
Plainer(nodes) == [n \in DOMAIN nodes |-> [nodes[n] EXCEPT !.inc = <<>>, !.out = <<>>, !.type = IF IsGate(nodes[n]) THEN "gateway" ELSE @]]
CondOf(f) == IF f.cond.has = "yes" THEN f.cond.text ELSE ""

(* the spreadsheets that have a meaning *)
Meant(rows) == Dead(rows) = {} /\ LostGotos(rows) = {} /\ Entered(rows) /\ SingleArrows(rows)

(* ------------------------------ round trip -------------------------------- *)
(* the rows the export writes: full order numbers *)
OutRow(r, act) == <<FullOrder(r), act, r.cond, r.sub, r.term>>
(* does the row or the part of a branch it starts run into an end event only? *)
SplitRows(rows) == {k \in DOMAIN rows : Mode(rows, k) = "split"}
ContinuingRow(rows, k) == At(rows, rows[k].pre, rows[k].n + 2)     \* after the split behind row k
Inside(rows, k) == {j \in DOMAIN rows : Len(rows[j].pre) > Len(rows[k].pre)
                      /\ SubSeq(rows[j].pre, 1, Len(rows[k].pre)) = rows[k].pre /\ rows[j].pre[Len(rows[k].pre) + 1].n = rows[k].n + 1}
RoundTrip(rows) ==
  /\ \A k \in SplitRows(rows) :
       IF ContinuingRow(rows, k) = {}
       THEN \A j \in Inside(rows, k) : Mode(rows, j) \notin {"merge", "goto"} \/ Max(Continuing(rows, j) \cup {0}) > Len(rows[k].pre) + 1
       ELSE LET m == CHOOSE x \in ContinuingRow(rows, k) : TRUE
                here == {j \in Mergers(rows, m) : TRUE}
                gos == {j \in Branches(rows, k) : IsGoto(rows[j]) /\ rows[j].goto = RowId(rows, m)}
            IN /\ ~ IsGoto(rows[m])
               /\ Cardinality(here) + Cardinality(gos) >= 2 /\ Cardinality(gos) <= 1
               /\ (gos # {} => ~ IsEnd(rows[m]))
  /\ \A k \in DOMAIN rows : IsGoto(rows[k]) =>      \* gotos only as empty branches
       \E s \in SplitRows(rows) : k \in Branches(rows, s) /\ \E m \in ContinuingRow(rows, s) : rows[k].goto = RowId(rows, m)
FullOf(rows, ord) == LET T == {k \in DOMAIN rows : Order(rows[k]) = ord} IN IF T = {} THEN ord ELSE FullOrder(rows[CHOOSE k \in T : TRUE])
(* every order number written in full *)
Lengthen(rows) == [k \in DOMAIN rows |-> [rows[k] EXCEPT !.short = "no", !.goto = IF @ = "" THEN "" ELSE FullOf(rows, @),
                     !.activity = IF rows[k].goto = "" THEN @ ELSE "goto " \o FullOf(rows, rows[k].goto)]]
OutRows(rows) == LET l == Lengthen(rows) IN [k \in DOMAIN l |-> OutRow(l[k], l[k].activity)]
=============================================================================
