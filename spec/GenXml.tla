------------------------------- MODULE GenXml --------------------------------
(***************************************************************************)
(* Builds BPMN documents element by element and, for each complete one, a  *)
(* plan of operations on it: load it as it is and written in other ways,   *)
(* query, export, load the export, export again, change one of the         *)
(* diagrams.  Every behaviour ends with a well-formed document (invariant  *)
(* WellFormed) whose meaning is a consistent diagram (invariant Sound).    *)
(***************************************************************************)
EXTENDS Xml, Json

CONSTANTS MAXPROCS, MAXNODES, MAXFLOWS, MAXLANES, MAXPARTS, MAXMSGS, TYPES, PLAN, CHECKED

VARIABLES doc, plan, phase, twin   \* twin: another document with the same ids
gvars == <<doc, plan, phase, twin>>

Pick(S) == RandomElement(S)
Chance(k, n) == Pick(1..n) <= k
Txt  == {"", "A", "B b", "~1", "~2", "~3", "~4", "~5", "~6", "~7", "~9", "~10", "~11", "n1", ABSENT}
Cond == {"", "A", "~1", "~2", "~3", "~4", "~5", "~8", "~9", "~10", "~11", "n1", "x > 1"}
Coord == {"0", "1", "100", "12.5", "-20", "1000", "36", "250.75", "100.0", "36.00", "1E2", "-0.25"}
(* numbers that binary fractions do not have exactly, or with many digits: in some documents *)
Odd == {"33.333333333333336", "1234567.875", "0.0001", "3000000000", "0.1", "-1e-05", "99999.99999", "7"}
Coords(suf) == IF suf \in {"_", "eno", "Id."} THEN Coord \cup Odd ELSE Coord
(* what the ids of a document have between their letters and their number *)
Sufs == {"", "", "_", "-", ".", "_0-", "Id.", "one", "eno", "case"}
Bool == {"true", "false", ABSENT}
Num(k) == ToString(k)
(* the k-th id of a kind: numbered; each a part of the next ("one") or of the one before ("eno"); pairs that differ in case only ("case") *)
RECURSIVE Ones(_)
Ones(k) == IF k = 0 THEN "" ELSE "1" \o Ones(k - 1)
Id(let, suf, k) ==
  CASE suf = "one" -> let \o Ones(k)
    [] suf = "eno" -> let \o Ones(IF k > 12 THEN k ELSE 13 - k)
    [] suf = "case" -> let \o Num((k + 1) \div 2) \o (IF k % 2 = 1 THEN "x" ELSE "X")
    [] OTHER -> let \o suf \o Num(k)

EmptyDoc == [suf |-> "", procs |-> <<>>, nodes |-> <<>>, flows |-> <<>>, lanes |-> <<>>, parts |-> <<>>, msgs |-> <<>>,
             collab |-> [present |-> "no", id |-> ABSENT], shapes |-> <<>>, edges |-> <<>>,
             diag |-> [id |-> "diagram1", name |-> ABSENT], plane |-> [id |-> "plane1", el |-> "p1"]]

(* the elements of a set in any order *)
RECURSIVE Mixed(_)
Mixed(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Mixed(S \ {x})
Containers(dd) == {dd.procs[k].id : k \in DOMAIN dd.procs}
                  \cup {dd.nodes[k].id : k \in {j \in DOMAIN dd.nodes : dd.nodes[j].type = "subProcess"}}
NodesIn(dd, c) == {k \in DOMAIN dd.nodes : dd.nodes[k].parent = c}
FlowEnds(dd) == {k \in DOMAIN dd.nodes : dd.nodes[k].type # "dataObject"}
FreePairs(dd) ==
  {<<a, b>> \in FlowEnds(dd) \X FlowEnds(dd) :
     /\ dd.nodes[a].parent = dd.nodes[b].parent
     /\ ~ \E k \in DOMAIN dd.flows : dd.flows[k].src = dd.nodes[a].id /\ dd.flows[k].tgt = dd.nodes[b].id}

RandAttr(k) ==
  CASE k = "gatewayDirection" -> Pick(Directions \cup {ABSENT})
    [] k = "eventGatewayType" -> Pick({"Exclusive", "Parallel", ABSENT})
    [] k \in {"default", "attachedToRef"} -> ABSENT
    [] OTHER -> Pick(Bool)
RandAttrs(t) == [k \in AttrNames |-> IF k \in DOMAIN TypeAttrs(t) /\ k # "isExpanded" THEN RandAttr(k) ELSE ABSENT]
RandDefs(t, k) ==
  IF DefsOfType(t) = {} THEN <<>>
  ELSE LET n == Pick({0, 1, 1, 2, 3}) IN
       [j \in 1..n |-> [t |-> DefTag(Pick(DefsOfType(t))), id |-> Pick({"d" \o doc.suf \o Num(k) \o "_" \o Num(j), "d" \o doc.suf \o Num(k) \o "x" \o Num(j), ABSENT})]]

AddProc ==
  /\ Len(doc.procs) < MAXPROCS
  /\ \E name \in {Pick(Txt)}, c \in {Pick(Bool)}, x \in {Pick(Bool)}, pt \in {Pick({"None", "Private", "Public", ABSENT})} :
     \E suf \in {IF doc.procs = <<>> THEN Pick(Sufs) ELSE doc.suf} :
     \E like \in {IF doc.procs # <<>> /\ Chance(1, 3) THEN Pick(DOMAIN doc.procs) ELSE 0} :     \* another one that says the same
       LET new == IF like = 0 THEN [name |-> name, isClosed |-> c, isExecutable |-> x, processType |-> pt]
                  ELSE [k \in {"name", "isClosed", "isExecutable", "processType"} |-> doc.procs[like][k]] IN
       doc' = [doc EXCEPT !.suf = suf, !.procs = Append(@, new @@ [id |-> Id("p", suf, Len(@) + 1), laneSet |-> ABSENT])]
AddNodeD ==
  /\ Len(doc.nodes) < MAXNODES
  /\ \E t \in {TYPES[Pick(DOMAIN TYPES)]}, c \in {Pick(Containers(doc))}, name \in {Pick(Txt)} :
     \E a \in {RandAttrs(t)}, df \in {RandDefs(t, Len(doc.nodes) + 1)},
        like \in {IF doc.nodes # <<>> /\ Chance(1, 5) THEN Pick(DOMAIN doc.nodes) ELSE 0} :
       LET new == IF like = 0 THEN [type |-> t, name |-> name, a |-> a, defs |-> df]
                  ELSE LET o == doc.nodes[like] IN [type |-> o.type, name |-> o.name, a |-> o.a, defs |-> [j \in DOMAIN o.defs |-> [o.defs[j] EXCEPT !.id = ABSENT]]] IN
       doc' = [doc EXCEPT !.nodes = Append(@, new @@ [id |-> Id("n", doc.suf, Len(@) + 1), parent |-> c, inc |-> <<>>, out |-> <<>>])]
AddFlowD ==
  /\ Len(doc.flows) < MAXFLOWS /\ FreePairs(doc) # {}
  /\ \E pr \in {Pick(FreePairs(doc))}, name \in {Pick(Txt)}, has \in {Pick({"yes", "no", "no"})}, cid \in {Pick({ABSENT, "x"})},
        txt \in {Pick(Cond)} :
       LET id == Id("f", doc.suf, Len(doc.flows) + 1) IN
       doc' = [doc EXCEPT !.flows = Append(@, [id |-> id, parent |-> doc.nodes[pr[1]].parent, name |-> name,
                 src |-> doc.nodes[pr[1]].id, tgt |-> doc.nodes[pr[2]].id,
                 cond |-> IF has = "yes" THEN [has |-> "yes", id |-> IF cid = ABSENT THEN ABSENT ELSE id \o "c", text |-> txt]
                          ELSE [has |-> "no", id |-> ABSENT, text |-> ABSENT]])]
(* a lane of a process, beside or inside another lane *)
AddLane ==
  /\ Len(doc.lanes) < MAXLANES
  /\ \E k \in {Pick(DOMAIN doc.procs)}, name \in {Pick(Txt)} :
     LET p == doc.procs[k].id
         id == Id("l", doc.suf, Len(doc.lanes) + 1)
         mine == {j \in DOMAIN doc.lanes : doc.lanes[j].process = p}
     IN \E par \in {IF mine = {} \/ Chance(1, 2) THEN ABSENT ELSE doc.lanes[Pick(mine)].id} :
        LET sib == {j \in mine : doc.lanes[j].parent = par}
        IN \E anon \in {Chance(1, 4)} :   \* a lane set need not have an id
           LET set == IF sib # {} THEN doc.lanes[CHOOSE j \in sib : TRUE].setId
                      ELSE IF anon THEN "" ELSE IF par = ABSENT THEN "ls_" \o p ELSE "cs_" \o par
        IN \E refs \in {{doc.nodes[j].id : j \in {i \in NodesIn(doc, p) : Chance(1, 2)}}} :
           doc' = [doc EXCEPT !.lanes = Append(@, [id |-> id, process |-> p, parent |-> par, setId |-> set, name |-> name,
                                                   refs |-> Mixed(refs)]),
                              !.procs[k].laneSet = IF par = ABSENT THEN set ELSE @]
AddPart ==
  /\ Len(doc.parts) < MAXPARTS
  /\ LET free == {doc.procs[k].id : k \in DOMAIN doc.procs} \ {doc.parts[k].ref : k \in DOMAIN doc.parts} IN
     \E ref \in {IF free # {} /\ Chance(2, 3) THEN Pick(free) ELSE Pick({ABSENT, ""})}, name \in {Pick(Txt)} :
       doc' = [doc EXCEPT !.parts = Append(@, [id |-> Id("pool", doc.suf, Len(@) + 1), name |-> name, ref |-> ref]),
                          !.collab = [present |-> "yes", id |-> "collab1"]]
(* message flows connect nodes of the top level of processes, and pools without a process *)
MsgEnds(dd) == {dd.nodes[k].id : k \in {j \in FlowEnds(dd) : dd.nodes[j].parent \in {dd.procs[q].id : q \in DOMAIN dd.procs}}}
               \cup {dd.parts[k].id : k \in {j \in DOMAIN dd.parts : dd.parts[j].ref \in {ABSENT, ""}}}
HomeOf(dd, e) == IF \E k \in DOMAIN dd.nodes : dd.nodes[k].id = e
                 THEN (FirstWith(dd.nodes, LAMBDA x : x.id = e)).parent ELSE e
MsgPairs(dd) == {<<a, b>> \in MsgEnds(dd) \X MsgEnds(dd) :
                   HomeOf(dd, a) # HomeOf(dd, b) /\ ~ \E k \in DOMAIN dd.msgs : dd.msgs[k].src = a /\ dd.msgs[k].tgt = b}
AddMsg ==
  /\ Len(doc.msgs) < MAXMSGS /\ doc.collab.present = "yes" /\ MsgPairs(doc) # {}
  /\ \E pr \in {Pick(MsgPairs(doc))}, name \in {Pick(Txt)} :
       doc' = [doc EXCEPT !.msgs = Append(@, [id |-> Id("m", doc.suf, Len(@) + 1), name |-> name, src |-> pr[1], tgt |-> pr[2]])]

(* ------------------------------ finishing -------------------------------- *)
Shuffled(s) == IF Len(s) < 2 \/ Chance(1, 2) THEN s ELSE Reverse(s)
ListMode(n) == Pick({"full", "full", "swap", "half", "none"})
ListOf(own, mode) ==
  CASE mode = "full" -> own [] mode = "swap" -> Shuffled(own) [] mode = "half" -> SubSeq(own, 1, Len(own) \div 2) [] OTHER -> <<>>
FinishNode(dd, n) ==
  LET own(P(_)) == MapIds(SelectSeq(dd.flows, P))
      outs == own(LAMBDA f : f.src = n.id)
      ins == own(LAMBDA f : f.tgt = n.id)
      host == {dd.nodes[k].id : k \in NodesIn(dd, n.parent)} \ {n.id}
  IN [n EXCEPT !.inc = ListOf(ins, ListMode(n)), !.out = ListOf(outs, ListMode(n)),
               !.a = [@ EXCEPT !.default = IF "default" \in DOMAIN TypeAttrs(n.type) /\ outs # <<>> /\ Chance(1, 2)
                                           THEN Pick(SeqSet(outs)) ELSE ABSENT,
                               !.attachedToRef = IF n.type = "boundaryEvent" /\ host # {} /\ Chance(3, 4) THEN Pick(host) ELSE ABSENT]]
NewShape(el, horiz, expanded) ==
  [el |-> el, x |-> Pick(Coords(doc.suf)), y |-> Pick(Coords(doc.suf)), w |-> Pick(Coords(doc.suf)), h |-> Pick(Coords(doc.suf)), horiz |-> horiz, expanded |-> expanded]
NewEdge(el) == [el |-> el, wps |-> [j \in 1..Pick({2, 2, 3, 4, 7, 15}) |-> <<Pick(Coords(doc.suf)), Pick(Coords(doc.suf))>>]]
Finished(dd) ==
  LET d1 == [dd EXCEPT !.nodes = [k \in DOMAIN @ |-> FinishNode(dd, @[k])]] IN
  [d1 EXCEPT
     !.shapes = [k \in DOMAIN dd.nodes |-> NewShape(dd.nodes[k].id, ABSENT, IF dd.nodes[k].type = "subProcess" THEN Pick(Bool) ELSE ABSENT)]
                \o [k \in DOMAIN dd.lanes |-> NewShape(dd.lanes[k].id, Pick(Bool), ABSENT)]
                \o [k \in DOMAIN dd.parts |-> NewShape(dd.parts[k].id, Pick(Bool), ABSENT)],
     !.edges = [k \in DOMAIN dd.flows |-> NewEdge(dd.flows[k].id)] \o [k \in DOMAIN dd.msgs |-> NewEdge(dd.msgs[k].id)],
     !.diag = [id |-> "diagram1", name |-> Pick(Txt)],
     !.plane = [id |-> "plane1", el |-> IF dd.collab.present = "yes" THEN "collab1" ELSE dd.procs[1].id]]

(* a document that draws only some of its elements, or none *)
Some(s, k) == SelectSeq(s, LAMBDA x : Chance(k, 4))
Undrawn(dd) == LET k == Pick({0, 2, 3}) IN [dd EXCEPT !.shapes = Some(@, k), !.edges = Some(@, k)]

(* a document with the same ids that says other things about them *)
Kin(t) == IF t \in {"task", "userTask", "serviceTask", "manualTask"} THEN Pick({"task", "userTask", "serviceTask", "manualTask"}) ELSE t
Twin(dd) ==
  [dd EXCEPT
     !.procs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = Pick(Txt), !.isClosed = Pick(Bool), !.isExecutable = Pick(Bool)]],
     !.nodes = [k \in DOMAIN @ |-> [@[k] EXCEPT !.type = Kin(@), !.name = Pick(Txt), !.defs = RandDefs(dd.nodes[k].type, k),
                                     !.a = [RandAttrs(dd.nodes[k].type) EXCEPT !.default = dd.nodes[k].a.default, !.attachedToRef = dd.nodes[k].a.attachedToRef]]],
     !.flows = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = Pick(Txt), !.cond = IF Chance(1, 2) THEN [has |-> "no", id |-> ABSENT, text |-> ABSENT]
                                                                            ELSE [has |-> "yes", id |-> ABSENT, text |-> Pick(Cond)]]],
     !.lanes = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = Pick(Txt), !.refs = Reverse(@)]],
     !.parts = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = Pick(Txt)]],
     !.msgs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = Pick(Txt)]],
     !.shapes = [k \in DOMAIN @ |-> NewShape(@[k].el, IF @[k].horiz = ABSENT THEN ABSENT ELSE Pick(Bool), IF @[k].expanded = ABSENT THEN ABSENT ELSE Pick(Bool))],
     !.edges = [k \in DOMAIN @ |-> NewEdge(@[k].el)],
     !.diag = [@ EXCEPT !.name = Pick(Txt)]]

(* --------------------------------- plans ---------------------------------- *)
Plain == [prefix |-> ""]
Style(q) == [prefix |-> Pick({"", "bpmn:", "semantic:", "b2:", "BPMN:", "bpmn-2.0:", "_b:"}), di |-> Pick({"bpmndi", "di2", "", "DI.x"}),
          dc |-> Pick({"dc", "omgdc", "D-C"}), attrs |-> Pick({"asc", "desc"}), quote |-> Pick({"double", "single"}),
          enc |-> Pick({"utf-8", "utf-8", "utf-16", "iso-8859-1", "us-ascii"}), comments |-> Pick({"yes", "no"}),
          pis |-> Pick({"yes", "no"}), ext |-> Pick({"yes", "no"}), order |-> Pick({"nf", "ff", "rev", "mix"}),
          place |-> Pick({"first", "last"}), shapes |-> Pick({"asc", "desc", "edges"}),
          lists |-> Pick({"asdoc", "full", "half", "none"}), omit |-> Pick({"yes", "no"}), cdata |-> Pick({"yes", "no"}),
          textws |-> Pick({"yes", "no"}), labels |-> Pick({"yes", "no"}), indent |-> Pick({"yes", "no"}), art |-> Pick({"yes", "no"}),
          eol |-> Pick({"lf", "crlf"}), empty |-> Pick({"short", "long"}), local |-> Pick({"yes", "no", "no"}), decl |-> Pick({"yes", "bom", "no"})]
P1 == doc.procs[1].id
MapIdSet(sq) == {sq[k].id : k \in DOMAIN sq}
Load(o, st) == [op |-> "load", o |-> o, doc |-> 1, style |-> st]
On(op, o) == [op |-> op, o |-> o]
NewTask(o) == [op |-> "task", o |-> o, p |-> P1, name |-> "later", id |-> "@def"]
(* building on a loaded diagram *)
Fresh(dd) == {pr \in FreePairs(dd) : ~ \E k \in DOMAIN dd.msgs : dd.msgs[k].src = dd.nodes[pr[1]].id /\ dd.msgs[k].tgt = dd.nodes[pr[2]].id}
MoreFlow(o, q) ==
  IF Fresh(doc) = {} THEN [op |-> "badflow", o |-> o]
  ELSE LET pr == Pick(Fresh(doc)) IN
       [op |-> "flow", o |-> o, p |-> doc.nodes[pr[1]].parent, src |-> doc.nodes[pr[1]].id, tgt |-> doc.nodes[pr[2]].id, name |-> Pick({"A", "~1", "@def"})]
BadFlow(o, q) == [op |-> "flow", o |-> o, p |-> P1, src |-> Pick({"nowhere", P1} \cup MapIdSet(doc.nodes)), tgt |-> "nowhere", name |-> "@def"]
MoreGate(o, q) == [op |-> Pick({"exclusive", "inclusive"}), o |-> o, p |-> Pick(Containers(doc)), name |-> Pick({"A", "~3", "@def"}),
                   dir |-> Pick({"@def", "Mixed", "Sideways"}), dflt |-> Pick({"@def", Id("f", doc.suf, 1)}), id |-> Pick({"@def", "x2"})]
MoreTask(o, q) == [op |-> "task", o |-> o, p |-> Pick(Containers(doc)), name |-> Pick({"A", "~1", "@def"}), id |-> "x1"]
MoreEvent(o, q) == [op |-> "end", o |-> o, p |-> P1, name |-> "A", def |-> Pick({"@def", "error", "terminate"}), id |-> "x3"]
Link(o) == [op |-> "flow", o |-> o, p |-> P1, src |-> "x4", tgt |-> "x3", name |-> "B b"]
Start4(o) == [op |-> "start", o |-> o, p |-> P1, name |-> "@def", def |-> "@def", multiple |-> "@def", interrupting |-> "@def", id |-> "x4"]
Plans(kind) ==
  CASE kind = "mixed" -> SelectSeq(<<Load("a", Plain), MoreTask("a", 1), MoreFlow("a", 2), BadFlow("a", 3), MoreGate("a", 4), MoreEvent("a", 5), Start4("a"), Link("a"),
                           [op |-> "process", o |-> "a", name |-> "A", closed |-> "@def", executable |-> "true", ptype |-> "@def"],
                           On("queries", "a"), On("metrics", "a"), On("nodi", "a"), Load("b", Plain), On("queries", "b")>>, LAMBDA x : x.op # "badflow")
    [] kind = "undone" -> SelectSeq(<<Load("a", Plain), BadFlow("a", 3), [MoreGate("a", 4) EXCEPT !.dir = "Sideways", !.id = "x2"], MoreTask("a", 1), BadFlow("a", 3), MoreFlow("a", 2), [MoreGate("a", 4) EXCEPT !.dir = "Mixed", !.id = "x2"], MoreEvent("a", 5),
                           BadFlow("a", 3), Start4("a"), Link("a"), On("queries", "a"), On("without", "a")>>, LAMBDA x : x.op # "badflow")
    [] kind = "grown" -> <<Load("a", Plain), MoreTask("a", 1), Start4("a"), MoreEvent("a", 5), Link("a"), On("export", "a"),
                           [op |-> "reload", o |-> "b", file |-> 6], On("export", "b"), On("queries", "b")>>
    [] kind = "laid" -> <<Load("a", Plain), On("layout", "a"), On("queries", "a"), On("metrics", "a"), On("cross", "a"), On("export", "a"),
                          [op |-> "reload", o |-> "b", file |-> 6], On("paths", "b"), On("layout", "b")>>
    [] kind = "load" -> <<Load("a", Plain), On("queries", "a"), On("metrics", "a")>>
    [] kind = "bare" -> SelectSeq(<<Load("a", Plain), On("queries", "a"), On("metrics", "a"), On("nodi", "a"), MoreTask("a", 1), MoreFlow("a", 2), On("nodi", "a"),
                          On("export", "a"), Load("b", Style(0)), On("queries", "b"), On("nodi", "b"), On("export", "b"),
                          [op |-> "reload", o |-> "c", file |-> IF Fresh(doc) = {} THEN 11 ELSE 12], On("export", "c"), On("paths", "c")>>, LAMBDA x : x.op # "badflow")
    [] kind = "barelaid" -> <<Load("a", Plain), On("export", "a"), On("layout", "a"), On("queries", "a"), On("cross", "a"), On("export", "a"),
                              [op |-> "reload", o |-> "b", file |-> 6], On("layout", "b"), On("export", "b")>>
    [] kind = "style" -> <<Load("a", Plain), Load("b", Style(0)), Load("c", Style(0)), Load("d", Style(0)), Load("e", Style(0))>>
    [] kind = "cycle" -> <<Load("a", Plain), On("export", "a"), [op |-> "reload", o |-> "b", file |-> 2], On("export", "b"),
                           On("nodi", "b"), [op |-> "reload", o |-> "c", file |-> 4], On("export", "c"), On("queries", "c")>>
    [] kind = "nodi" -> <<Load("a", Plain), On("nodi", "a"), On("export", "a"), [op |-> "reload", o |-> "b", file |-> 3], On("nodi", "b")>>
    [] kind = "share" -> <<Load("a", Plain), Load("b", Plain), NewTask("a"), On("queries", "b"), On("export", "b"),
                           [op |-> "new", o |-> "a", name |-> "A"], Load("a", Plain),
                           [op |-> "new", o |-> "b", name |-> "B"], On("queries", "a")>>
    [] kind = "twin" -> <<Load("a", Plain), [Load("b", Plain) EXCEPT !.doc = 2], On("queries", "a"), On("export", "b"), NewTask("b"), On("export", "a"),
                          [op |-> "new", o |-> "a", name |-> "A"], [Load("a", Plain) EXCEPT !.doc = 2], On("queries", "b"),
                          Load("c", Plain), On("export", "c"), On("queries", "a")>>
    [] kind = "reads" -> <<Load("a", Plain), [op |-> "reads", o |-> "a", which |-> <<"queries", "counts", "cross", "xml", "nodi">>],
                           [op |-> "reads", o |-> "a", which |-> Pick({<<"csv", "dot">>, <<"paths", "xml">>, <<"png">>, <<"draw", "xml">>})],
                           On("export", "a"), On("nodi", "a")>>
    [] kind = "count" -> <<Load("a", Plain), On("metrics", "a"), On("cross", "a")>>
    [] kind = "paths" -> SelectSeq(<<Load("a", Plain), On("paths", "a"), MoreTask("a", 1), MoreFlow("a", 2), On("paths", "a")>>, LAMBDA x : x.op # "badflow")
    [] kind = "refuse" -> SelectSeq(<<Load("a", Plain), [op |-> "csvrefused", o |-> "a", pre |-> "yes"], MoreTask("a", 1), MoreFlow("a", 2), MoreEvent("a", 5), [op |-> "csvrefused", o |-> "a", pre |-> "no"]>>,
                                    LAMBDA x : x.op # "badflow")
    [] kind = "styled" -> SelectSeq(<<Load("a", Style(0)), On("queries", "a"), Load("b", Style(0)), On("export", "b"), [op |-> "reload", o |-> "c", file |-> 4],
                                      On("export", "c"), On("queries", "c"), MoreFlow("a", 2), On("queries", "a")>>, LAMBDA x : x.op # "badflow")
    [] kind = "draw" -> <<Load("a", Plain), On("dot", "a"), On("png", "a"), On("draw", "a")>>

(* -------------------------------- behaviour ------------------------------- *)
Init == doc = EmptyDoc /\ plan = <<>> /\ phase = "build" /\ twin = <<>>

CanNode == Len(doc.nodes) < MAXNODES
CanFlow == Len(doc.flows) < MAXFLOWS /\ FreePairs(doc) # {}
CanLane == Len(doc.lanes) < MAXLANES
CanPart == Len(doc.parts) < MAXPARTS
CanMsg  == Len(doc.msgs) < MAXMSGS /\ doc.collab.present = "yes" /\ MsgPairs(doc) # {}
CanProc == Len(doc.procs) < MAXPROCS
Build == /\ phase = "build"
         /\ IF doc.procs = <<>> THEN AddProc
            ELSE \E w \in {Pick(1..20)} :
              CASE w <= 8 /\ CanNode -> AddNodeD
                [] w > 8 /\ w <= 14 /\ CanFlow -> AddFlowD
                [] w = 15 /\ CanProc -> AddProc
                [] w \in {16, 17} /\ CanLane -> AddLane
                [] w = 18 /\ CanPart -> AddPart
                [] w \in {19, 20} /\ CanMsg -> AddMsg
                [] w \in {19, 20} /\ ~ CanMsg /\ CanPart -> AddPart
                [] OTHER -> UNCHANGED doc
         /\ UNCHANGED <<plan, phase, twin>>
CONSTANT STEPS
Finish == /\ phase = "build" /\ TLCGet("level") >= STEPS
          /\ \E k \in {PLAN[Pick(DOMAIN PLAN)]} :
             \E f \in {IF k \in {"bare", "barelaid"} THEN Undrawn(Finished(doc)) ELSE Finished(doc)} : \E pl \in {Plans(k)}, tw \in {IF k = "twin" THEN <<Twin(f)>> ELSE <<>>} : doc' = f /\ plan' = pl /\ twin' = tw
          /\ phase' = "done"
Next == (TLCGet("level") < STEPS /\ Build) \/ Finish
Spec == Init /\ [][Next]_gvars

(* ------------------------------- properties ------------------------------- *)
AllIds(dd) == MapIds(dd.procs) \o MapIds(dd.nodes) \o MapIds(dd.flows) \o MapIds(dd.lanes) \o MapIds(dd.parts) \o MapIds(dd.msgs)
WellFormed == phase = "done" =>
  /\ NoDup(AllIds(doc))
  /\ \A k \in DOMAIN doc.flows : doc.flows[k].parent \in Containers(doc)
  /\ \A k \in DOMAIN doc.nodes : doc.nodes[k].parent \in Containers(doc)
Sound == (CHECKED /\ phase = "done") =>                                     \* C02, C07, C12
  LET d == ImportDoc(doc) IN FlowsAgree(d) /\ NidsRight(d)
(* what is exported is the content that was imported: nothing lost, nothing made up (C09, C10, C12) *)
Faithful == (CHECKED /\ phase = "done") =>
  LET d == ImportDoc(doc)
      out == ExportCore(d)
      inp == DocCore([doc EXCEPT !.nodes = [k \in DOMAIN @ |-> [@[k] EXCEPT !.inc = d.nodes[doc.nodes[k].id].inc,
                                                                                      !.out = d.nodes[doc.nodes[k].id].out]],
                                 !.flows = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = Label(Or(@, ""), doc.flows[k].cond)]]])
  IN /\ out.nodes = inp.nodes /\ out.procs = inp.procs /\ out.flows = inp.flows
     /\ DOMAIN ExportShapes(d).edges = {[el |-> doc.edges[k].el, wps |-> doc.edges[k].wps] : k \in DOMAIN doc.edges}
     /\ AfterCycle(AfterCycle(d)) = AfterCycle(d)
Emit == phase = "done" => PrintT("SCN " \o ToJson([docs |-> <<doc>> \o twin, ops |-> plan]))
=============================================================================
