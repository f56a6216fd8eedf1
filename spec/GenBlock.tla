------------------------------ MODULE GenBlock -------------------------------
(***************************************************************************)
(* Block-structured processes and the spreadsheet rows they stand for      *)
(* (C21).  A stack of open sequences is grown element by element; nodes,   *)
(* flows and expected rows grow together.  A split gateway takes a number  *)
(* of its sequence; its branches end in its own join (a gateway, or the    *)
(* activity they all lead to) or in end events; a branch may be empty.     *)
(* A complete process is built by calls ("block") or loaded from XML       *)
(* ("doc") and exported.                                                   *)
(***************************************************************************)
EXTENDS Bpmn, Csv, Xml, Json

CONSTANTS MAXROWS, MAXDEPTH, MAXBRANCH, WAYS

VARIABLES nodes, flows, rows, stack, phase, way
bvars == <<nodes, flows, rows, stack, phase, way>>
Pick(S) == RandomElement(S)

Plain0 == [name |-> "", cond |-> "", dflt |-> "no"]
Texts0 == {"A", "B b", "C", "", "~1", "~2", "~3", "~4", "~5", "~6", "~7", "~9"}
Labels == {"A", "x > 1", "~1", "~3", "~4", "~8", "yes", "no", "else"}
(* pre: branches; n: elements so far; src, lab: where the next flow starts; split: open split gateway *)
Frame(pre, n, src, lab) == [pre |-> pre, n |-> n, src |-> src, lab |-> lab, split |-> "", kind |-> "", br |-> 0, ends |-> <<>>,
                            slots |-> <<>>, must |-> FALSE, dflt |-> FALSE]
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
NewId(k) == "b" \o ToString(Len(nodes) + k)
Node(id, kind, name, def) == [id |-> id, kind |-> kind, name |-> name, def |-> def]
Flow(s, t, lab) == [src |-> s, tgt |-> t, name |-> lab.name, cond |-> lab.cond, dflt |-> lab.dflt]
(* what a row of a branch says about its condition *)
CondText(kind, lab) ==
  IF kind = "parallelGateway" THEN "" ELSE IF lab.dflt = "yes" THEN "else" ELSE IF lab.name # "" THEN lab.name ELSE lab.cond
RowOf(pre, n, act, cond, kind) ==
  <<Prefix(pre) \o ToString(n), act, cond, IF kind = "subProcess" THEN "yes" ELSE "", IF kind = "endEvent" THEN "yes" ELSE "">>
BranchKind == IF Len(stack) < 2 THEN "" ELSE stack[Len(stack) - 1].kind
FirstCond == IF Top.n = 0 /\ Len(stack) > 1 THEN CondText(BranchKind, Top.lab) ELSE ""

Init == /\ phase = "grow" /\ way = ""
        /\ nodes = <<Node("b1", "startEvent", "A", "")>>
        /\ flows = <<>> /\ rows = <<RowOf(<<>>, 0, "A", "", "startEvent")>>
        /\ stack = <<Frame(<<>>, 0, "b1", Plain0)>>

(* the parent's frame when its branch is over: ended, or open with a last node *)
Up(s, open, id) ==
  IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)] = IF open THEN [@ EXCEPT !.ends = Append(@, id)] ELSE @]
Spoken(act, def) == IF def \in {"message", "timer"} THEN def \o " " \o act ELSE act
PutRow(kind, name, def) ==
  LET id == NewId(1) IN
  /\ Top.split = ""
  /\ nodes' = Append(nodes, Node(id, kind, name, def))
  /\ flows' = Append(flows, Flow(Top.src, id, Top.lab))
  /\ rows' = Append(rows, RowOf(Top.pre, Top.n + 1, IF kind = "endEvent" /\ def = "message" THEN "message " \o name ELSE name, FirstCond, kind))
  /\ stack' = IF kind = "endEvent" THEN Rest
              ELSE Append(Rest, [Top EXCEPT !.n = @ + 1, !.src = id, !.lab = Plain0, !.must = FALSE])
Split(kind) ==
  LET id == NewId(1) IN
  /\ Top.split = "" /\ ~ Top.must /\ Len(stack) <= MAXDEPTH
  /\ nodes' = Append(nodes, Node(id, kind, "", ""))
  /\ flows' = Append(flows, Flow(Top.src, id, Top.lab))
  /\ stack' = Append(Rest, [Top EXCEPT !.split = id, !.kind = kind, !.br = 0, !.ends = <<>>, !.slots = <<>>, !.dflt = FALSE])
  /\ UNCHANGED rows
Opened == [Top EXCEPT !.br = @ + 1]
BranchPre == Append(Top.pre, [n |-> Top.n + 1, l |-> Letters[Top.br + 1]])
(* a split with one open branch only needs another one *)
Single == Top.br >= MAXBRANCH /\ Top.br < 26 /\ Len(Top.ends) + Len(Top.slots) = 1
Branch(lab) ==
  /\ Top.split # "" /\ Top.br < (IF Single THEN 26 ELSE MAXBRANCH)
  /\ stack' = Append(Append(Rest, [Opened EXCEPT !.dflt = @ \/ lab.dflt = "yes"]), Frame(BranchPre, 0, Top.split, lab))
  /\ UNCHANGED <<nodes, flows, rows>>
Empty(lab) ==
  /\ Top.split # "" /\ Top.br < MAXBRANCH /\ Top.slots = <<>>
  /\ flows' = Append(flows, Flow(Top.split, "?", lab))
  /\ rows' = Append(rows, RowOf(BranchPre, 1, "goto " \o Prefix(Top.pre) \o ToString(Top.n + 2), CondText(Top.kind, lab), ""))
  /\ stack' = Append(Rest, [Opened EXCEPT !.slots = <<Len(flows) + 1>>, !.dflt = @ \/ lab.dflt = "yes"])
  /\ UNCHANGED nodes
EndBranch ==
  /\ Len(stack) > 1 /\ Top.split = "" /\ Top.n > 0 /\ ~ Top.must
  /\ stack' = Up(Rest, TRUE, Top.src) /\ UNCHANGED <<nodes, flows, rows>>
Filled(id) == [k \in DOMAIN flows |-> IF k \in SeqSet(Top.slots) THEN [flows[k] EXCEPT !.tgt = id] ELSE flows[k]]
Join(kind, name) ==
  LET id == NewId(1) IN
  /\ Top.split # "" /\ Top.br >= 2 /\ Len(Top.ends) + Len(Top.slots) >= 2
  /\ nodes' = Append(nodes, Node(id, kind, name, ""))
  /\ flows' = Filled(id) \o [k \in DOMAIN Top.ends |-> Flow(Top.ends[k], id, Plain0)]
  /\ IF kind \in GatewayTypes
     THEN /\ stack' = Append(Rest, [Top EXCEPT !.split = "", !.n = @ + 1, !.src = id, !.lab = Plain0, !.must = Top.slots # <<>>])
          /\ UNCHANGED rows
     ELSE /\ stack' = Append(Rest, [Top EXCEPT !.split = "", !.n = @ + 2, !.src = id, !.lab = Plain0, !.must = FALSE])
          /\ rows' = Append(rows, RowOf(Top.pre, Top.n + 2, name, "", kind))
AllEnded ==
  /\ Top.split # "" /\ Top.br >= 2 /\ Top.ends = <<>> /\ Top.slots = <<>>
  /\ stack' = Rest /\ UNCHANGED <<nodes, flows, rows>>

RandLabel(q) == [name |-> Pick({"", "", Pick(Labels)}), cond |-> Pick({"", Pick(Labels)}),
             dflt |-> IF ~ Top.dflt /\ Top.kind # "parallelGateway" /\ Pick(1..4) = 1 THEN "yes" ELSE "no"]
Kinds0 == {"exclusiveGateway", "inclusiveGateway", "parallelGateway"}
Full == Len(rows) >= MAXROWS
Wide == MAXBRANCH > 6 /\ ~ Full     \* a split is kept open for many branches
Waiting == Top.split # "" /\ Top.br >= 2
Grow ==
  /\ phase = "grow" /\ stack # <<>> /\ UNCHANGED <<phase, way>>
  /\ \E w \in {Pick(1..10)} :
     IF Top.split = ""
     THEN IF Full THEN (IF Len(stack) > 1 /\ Top.n > 0 /\ ~ Top.must /\ w > 3 THEN EndBranch
                        ELSE \E nm \in {Pick(Texts0)} : PutRow(IF Len(stack) > 1 /\ w > 2 /\ (Top.n = 0 \/ Top.must) THEN "task" ELSE "endEvent", nm, ""))
          ELSE CASE w <= 4 -> (\E k \in {Pick({"task", "task", "subProcess"})}, nm \in {Pick(Texts0)} : PutRow(k, nm, ""))
                 [] w \in {5, 6, 7} /\ ~ Top.must /\ Len(stack) <= MAXDEPTH -> (\E k \in {Pick(Kinds0)} : Split(k))
                 [] w = 8 /\ (Len(stack) > 1 \/ Top.n > 2) -> (\E df \in {Pick({"", "", "message", "error"})} :
                        \E nm \in {IF df = "message" THEN Pick({"A", "B b", ""}) ELSE Pick(Texts0)} : PutRow("endEvent", nm, df))
                 [] w > 8 /\ Len(stack) > 1 /\ Top.n > 0 /\ ~ Top.must -> EndBranch
                 [] OTHER -> (\E nm \in {Pick(Texts0)} : PutRow("task", nm, ""))
     ELSE IF Waiting /\ ((w <= 5 /\ (~ Wide \/ Pick(1..8) = 1)) \/ Top.br = MAXBRANCH) /\ Len(Top.ends) + Len(Top.slots) # 1
          THEN IF Top.ends = <<>> /\ Top.slots = <<>> THEN AllEnded
               ELSE \E k \in {Pick({"exclusiveGateway", "inclusiveGateway", "parallelGateway", "task", "subProcess"})}, nm \in {Pick(Texts0)} :
                    Join(k, IF k \in GatewayTypes THEN "" ELSE nm)
          ELSE IF w = 6 /\ Top.slots = <<>> /\ Top.br < MAXBRANCH THEN (\E lab \in {RandLabel(0)} : Empty(lab))
          ELSE IF Top.br < MAXBRANCH \/ Single THEN \E lab \in {RandLabel(0)} : Branch(lab)
          ELSE UNCHANGED <<nodes, flows, rows, stack>>
(* the start event gets its definition and name at the end *)
Finish ==
  /\ phase = "grow" /\ stack = <<>> /\ UNCHANGED <<flows, stack>>
  /\ \E df \in {Pick({"", "message", "timer", "signal"})}, w \in {WAYS[Pick(DOMAIN WAYS)]} :
     \E nm \in {IF df \in {"message", "timer"} THEN Pick({"A", "B b", ""}) ELSE Pick(Texts0)} :
       /\ nodes' = [nodes EXCEPT ![1] = Node("b1", "startEvent", nm, df)]
       /\ rows' = [rows EXCEPT ![1] = RowOf(<<>>, 0, Spoken(nm, df), "", "startEvent")]
       /\ way' = w
  /\ phase' = "done"
Next == Grow \/ Finish
Spec == Init /\ [][Next]_bvars

(* ------------------------------- properties ------------------------------- *)
Out(n) == {k \in DOMAIN flows : flows[k].src = n}
In(n) == {k \in DOMAIN flows : flows[k].tgt = n}
Shaped == phase = "done" =>
  /\ \A k \in DOMAIN flows : flows[k].tgt # "?"
  /\ \A j \in DOMAIN nodes : LET n == nodes[j] IN
       /\ (n.kind = "endEvent" => Out(n.id) = {} /\ Cardinality(In(n.id)) = 1)
       /\ (n.kind = "startEvent" <=> In(n.id) = {})
       /\ (n.kind \in {"task", "subProcess"} => Cardinality(Out(n.id)) = 1)
       /\ (n.kind \in GatewayTypes => Cardinality(In(n.id)) = 1 \/ Cardinality(Out(n.id)) = 1)
  /\ \A j, k \in DOMAIN flows : j # k => <<flows[j].src, flows[j].tgt>> # <<flows[k].src, flows[k].tgt>>
(* one row per activity and event, one per empty branch; all numbers differ (C21) *)
OneRowEach == phase = "done" =>
  LET acts == {j \in DOMAIN nodes : nodes[j].kind \notin GatewayTypes}
      gos == {k \in DOMAIN rows : \E j \in DOMAIN flows : FALSE}
  IN Cardinality({rows[k][1] : k \in DOMAIN rows}) = Len(rows) /\ Len(rows) >= Cardinality(acts)

NodeDoc(n) == [id |-> n.id, type |-> n.kind, parent |-> "p1", name |-> n.name, inc |-> <<>>, out |-> <<>>,
               a |-> [x \in AttrNames |-> IF x = "default" /\ \E k \in Out(n.id) : flows[k].dflt = "yes"
                                          THEN "f" \o ToString(CHOOSE k \in Out(n.id) : flows[k].dflt = "yes") ELSE ABSENT],
               defs |-> IF n.def = "" THEN <<>> ELSE <<[t |-> DefTag(n.def), id |-> n.id \o "d"]>>]
FlowDoc(k) == LET f == flows[k] IN
  [id |-> "f" \o ToString(k), parent |-> "p1", name |-> IF f.name = "" THEN ABSENT ELSE f.name, src |-> f.src, tgt |-> f.tgt,
   cond |-> IF f.cond = "" THEN [has |-> "no", id |-> ABSENT, text |-> ABSENT]
            ELSE [has |-> "yes", id |-> "f" \o ToString(k) \o "c", text |-> f.cond]]
Doc == [procs |-> <<[id |-> "p1", name |-> ABSENT, isClosed |-> ABSENT, isExecutable |-> ABSENT, processType |-> ABSENT, laneSet |-> ABSENT]>>,
        nodes |-> [k \in DOMAIN nodes |-> NodeDoc(nodes[k])], flows |-> [k \in DOMAIN flows |-> FlowDoc(k)],
        lanes |-> <<>>, parts |-> <<>>, msgs |-> <<>>, collab |-> [present |-> "no", id |-> ABSENT],
        shapes |-> [k \in DOMAIN nodes |-> [el |-> nodes[k].id, x |-> "0", y |-> "0", w |-> "10", h |-> "10", horiz |-> ABSENT, expanded |-> ABSENT]],
        edges |-> [k \in DOMAIN flows |-> [el |-> "f" \o ToString(k), wps |-> <<<<"0", "0">>, <<"1", "1">>>>]],
        diag |-> [id |-> "diagram1", name |-> ABSENT], plane |-> [id |-> "plane1", el |-> "p1"]]
Export == [op |-> "csvexport", o |-> "a", want |-> rows]
Scenario ==
  CASE way = "block" -> [ops |-> <<[op |-> "block", o |-> "a", nodes |-> nodes, flows |-> flows], Export>>]
    [] way = "doc" -> [docs |-> <<Doc>>, ops |-> <<[op |-> "load", o |-> "a", doc |-> 1, style |-> [prefix |-> ""]], Export>>]
    [] way = "reads" -> [ops |-> <<[op |-> "block", o |-> "a", nodes |-> nodes, flows |-> flows],
                                   [op |-> "reads", o |-> "a", which |-> <<"csv", "nodi", "counts", "paths", "csv">>], [op |-> "layout", o |-> "a"],
                                   [op |-> "reads", o |-> "a", which |-> <<"csv", "xml", "cross", "dot", "queries">>]>>]
    [] way = "laid" -> [ops |-> <<[op |-> "block", o |-> "a", nodes |-> nodes, flows |-> flows], [op |-> "layout", o |-> "a"], Export>>]
Emit == phase = "done" => PrintT("SCN " \o ToJson(Scenario))
=============================================================================
