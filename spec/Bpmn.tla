-------------------------------- MODULE Bpmn --------------------------------
(***************************************************************************)
(* The diagram value of bpmn-python and the pure operators on it.          *)
(*                                                                         *)
(* A diagram is a record                                                   *)
(*   nodes  : id -> node record        flows : id -> flow record           *)
(*   seq    : id -> row of the sequence flow table                         *)
(*   procs  : id -> process record     lanes : id -> lane record           *)
(*   collab : [present, id]            parts : id -> participant record    *)
(*   msgs   : id -> row of the message flow table                          *)
(*   diag   : [id, name]               plane : [id, el]                    *)
(* All scalars are strings; ABSENT stands for an attribute that is not     *)
(* there.  Empty functions, tuples and records are the same value in TLC.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

ABSENT == "@absent"

(* ------------------------------ vocabulary ------------------------------ *)
TaskTypes     == {"task", "userTask", "serviceTask", "manualTask"}
GatewayTypes  == {"inclusiveGateway", "exclusiveGateway", "parallelGateway",
                  "eventBasedGateway", "complexGateway"}
EventTypes    == {"startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent"}
RouteGateways == {"inclusiveGateway", "exclusiveGateway", "parallelGateway"}
NodeTypes     == TaskTypes \cup {"subProcess", "dataObject", "boundaryEvent"} \cup GatewayTypes \cup EventTypes
Directions    == {"Unspecified", "Converging", "Diverging", "Mixed"}
AttrNames     == {"default", "gatewayDirection", "instantiate", "eventGatewayType", "triggeredByEvent",
                  "isExpanded", "parallelMultiple", "isInterrupting", "cancelActivity", "attachedToRef",
                  "isCollection"}
StartDefs     == {"message", "timer", "conditional", "signal", "escalation"}
EndDefs       == {"terminate", "escalation", "message", "compensate", "signal", "error"}
DefsOfType(t) ==   \* event definitions the importer supports for an event type
  CASE t = "startEvent" -> {"message", "timer", "conditional", "escalation", "signal"}
    [] t = "intermediateCatchEvent" -> {"message", "timer", "signal", "conditional", "escalation"}
    [] t = "endEvent" -> {"message", "signal", "escalation", "error", "compensate", "terminate"}
    [] t = "intermediateThrowEvent" -> {"message", "signal", "escalation", "compensate"}
    [] t = "boundaryEvent" -> {"message", "timer", "signal", "conditional", "escalation", "error"}
    [] OTHER -> {}
DefTag(k) == k \o "EventDefinition"

NoAttrs == [k \in AttrNames |-> ABSENT]

(* ------------------------------- helpers -------------------------------- *)
EmptyFn == <<>>
Dom(f) == DOMAIN f
Restrict0(f, S) == [x \in S |-> f[x]]
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
With(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, dflt) == IF x \in DOMAIN f THEN f[x] ELSE dflt
SeqSet(s) == {s[i] : i \in DOMAIN s}
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in SeqSet(s) \cup SeqSet(t) : CountIn(s, x) = CountIn(t, x)
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
BagOf(s) == [x \in SeqSet(s) |-> CountIn(s, x)]
BoolStr(b) == IF b THEN "true" ELSE "false"

(* ------------------------------ diagrams -------------------------------- *)
EmptyDiagram == [nodes |-> EmptyFn, flows |-> EmptyFn, seq |-> EmptyFn, procs |-> EmptyFn, lanes |-> EmptyFn,
                 collab |-> [present |-> "no", id |-> ABSENT], parts |-> EmptyFn, msgs |-> EmptyFn,
                 diag |-> [id |-> ABSENT, name |-> ABSENT], plane |-> [id |-> ABSENT, el |-> ABSENT]]

NewNode(id, type, name, proc, attrs, defs) ==
  [id |-> id, type |-> type, name |-> name, process |-> proc, inc |-> <<>>, out |-> <<>>,
   x |-> "100", y |-> "100", w |-> "100", h |-> "100", a |-> attrs, defs |-> defs, nids |-> <<>>]

AttrsOf(k1, v1) == [NoAttrs EXCEPT ![k1] = v1]
AttrsOf2(k1, v1, k2, v2) == [NoAttrs EXCEPT ![k1] = v1, ![k2] = v2]

(* The record a building call has to store, as a function of its options.  *)
(* defId is the id the library gave to the event definition.               *)
BuiltNode(op, id, defId) ==
  CASE op.op = "task"     -> NewNode(id, "task", op.name, op.p, NoAttrs, <<>>)
    [] op.op = "subprocess" -> NewNode(id, "subProcess", op.name, op.p,
                                 AttrsOf2("isExpanded", op.expanded, "triggeredByEvent", op.triggered), <<>>)
    [] op.op = "start"    -> NewNode(id, "startEvent", op.name, op.p,
                                 AttrsOf2("parallelMultiple", op.multiple, "isInterrupting", op.interrupting),
                                 IF op.def \in StartDefs THEN <<[t |-> DefTag(op.def), id |-> defId]>> ELSE <<>>)
    [] op.op = "end"      -> NewNode(id, "endEvent", op.name, op.p, NoAttrs,
                                 IF op.def \in EndDefs THEN <<[t |-> DefTag(op.def), id |-> defId]>> ELSE <<>>)
    [] op.op = "exclusive" -> NewNode(id, "exclusiveGateway", op.name, op.p,
                                 AttrsOf2("gatewayDirection", op.dir, "default", op.dflt), <<>>)
    [] op.op = "inclusive" -> NewNode(id, "inclusiveGateway", op.name, op.p,
                                 AttrsOf2("gatewayDirection", op.dir, "default", op.dflt), <<>>)
    [] op.op = "parallel" -> NewNode(id, "parallelGateway", op.name, op.p,
                                 AttrsOf("gatewayDirection", op.dir), <<>>)

(* ----------------------- options and their defaults ---------------------- *)
DFLT == "@def"    \* an option that is left out
Val(v, dflt) == IF v = DFLT THEN dflt ELSE v
Has(op, f) == f \in DOMAIN op
Fld(op, f, dflt) == IF f \in DOMAIN op THEN Val(op[f], dflt) ELSE dflt

(* the options of a building call with the documented defaults filled in *)
Resolve(op) ==
  [op |-> op.op, name |-> Fld(op, "name", ""), p |-> Fld(op, "p", ABSENT), id |-> Fld(op, "id", ABSENT),
   expanded |-> Fld(op, "expanded", "false"), triggered |-> Fld(op, "triggered", "false"),
   multiple |-> Fld(op, "multiple", "false"), interrupting |-> Fld(op, "interrupting", "true"),
   def |-> Fld(op, "def", ABSENT), dir |-> Fld(op, "dir", "Unspecified"), dflt |-> Fld(op, "dflt", ABSENT),
   src |-> Fld(op, "src", ABSENT), tgt |-> Fld(op, "tgt", ABSENT), closed |-> Fld(op, "closed", "false"),
   executable |-> Fld(op, "executable", "false"), ptype |-> Fld(op, "ptype", "None")]

NodeOps == {"task", "subprocess", "start", "end", "exclusive", "inclusive", "parallel"}
GatewayOps == {"exclusive", "inclusive", "parallel"}

(* Does the library have to refuse the call? *)
Refused(d, op) ==
  CASE op.op \in GatewayOps -> op.dir \notin Directions
    [] op.op = "flow" -> op.src \notin DOMAIN d.nodes \/ op.tgt \notin DOMAIN d.nodes
    [] OTHER -> FALSE

AddNode(d, id, rec) == [d EXCEPT !.nodes = With(@, id, rec)]

NewFlow(d, id, op) ==
  [id |-> id, name |-> op.name, process |-> op.p, src |-> op.src, tgt |-> op.tgt,
   wps |-> IF ABSENT \in {d.nodes[op.src].x, d.nodes[op.tgt].x} THEN <<>>     \* an end that is not drawn
           ELSE << <<d.nodes[op.src].x, d.nodes[op.src].y>>, <<d.nodes[op.tgt].x, d.nodes[op.tgt].y>> >>,
   cond |-> [has |-> "no", id |-> ABSENT, text |-> ABSENT]]

AddFlow(d, id, op) ==
  LET n1 == [d.nodes EXCEPT ![op.src].out = Append(@, id)]
      n2 == [n1 EXCEPT ![op.tgt].inc = Append(@, id)]
  IN [d EXCEPT !.nodes = n2,
               !.flows = With(@, id, NewFlow(d, id, op)),
               !.seq = With(@, id, [name |-> op.name, src |-> op.src, tgt |-> op.tgt])]

NewProc(op) == [name |-> op.name, isClosed |-> op.closed, isExecutable |-> op.executable,
                processType |-> op.ptype, laneSet |-> ABSENT, nids |-> <<>>]

AddProcess(d, id, planeId, op) ==
  [d EXCEPT !.procs = With(@, id, NewProc(op)), !.plane = [id |-> planeId, el |-> id]]

NewDiagram(id, name) == [EmptyDiagram EXCEPT !.diag = [id |-> id, name |-> name]]

(* every id that occurs as a key or element id in a diagram *)
IdsOf(d) == DOMAIN d.nodes \cup DOMAIN d.flows \cup DOMAIN d.seq \cup DOMAIN d.procs \cup DOMAIN d.lanes
            \cup DOMAIN d.parts \cup DOMAIN d.msgs \cup {d.diag.id, d.plane.id}
            \cup UNION { {d.nodes[n].defs[i].id : i \in DOMAIN d.nodes[n].defs} : n \in DOMAIN d.nodes }

(* ------------------------------ consistency ----------------------------- *)
(* The flow table, the graph and the node lists tell the same story.       *)
TablesAgree(d) ==
  /\ DOMAIN d.flows = DOMAIN d.seq \cup DOMAIN d.msgs
  /\ DOMAIN d.seq \cap DOMAIN d.msgs = {}
  /\ \A f \in DOMAIN d.flows :
       LET r == IF f \in DOMAIN d.seq THEN d.seq[f] ELSE d.msgs[f] IN
       /\ d.flows[f].id = f
       /\ r.name = d.flows[f].name /\ r.src = d.flows[f].src /\ r.tgt = d.flows[f].tgt
       /\ d.flows[f].src \in DOMAIN d.nodes /\ d.flows[f].tgt \in DOMAIN d.nodes
ListsAgree(d) ==
  \A n \in DOMAIN d.nodes :
    /\ NoDup(d.nodes[n].inc) /\ NoDup(d.nodes[n].out)
    /\ SeqSet(d.nodes[n].inc) = {f \in DOMAIN d.flows : d.flows[f].tgt = n}
    /\ SeqSet(d.nodes[n].out) = {f \in DOMAIN d.flows : d.flows[f].src = n}
FlowsAgree(d) == TablesAgree(d) /\ ListsAgree(d)

(* ------------------------------- queries -------------------------------- *)
NodesOfType(d, t) == {n \in DOMAIN d.nodes : d.nodes[n].type = t}
NodesOfProc(d, p) == {n \in DOMAIN d.nodes : d.nodes[n].process = p}
FlowsOfProc(d, p) == {f \in DOMAIN d.flows : d.flows[f].process = p}

(* event definitions are compared as bags (their order is not observable   *)
(* in BPMN, and the importer iterates over a set)                          *)
CanonNode(n) == [n EXCEPT !.defs = BagOf(@)]
CanonNodes(f) == [n \in DOMAIN f |-> CanonNode(f[n])]

(* node ids of a process are a bag, too *)
CanonProc(p) == [p EXCEPT !.nids = BagOf(@)]
CanonProcs(f) == [p \in DOMAIN f |-> CanonProc(f[p])]

(* everything except geometry *)
(* the number a coordinate text stands for, in its shortest writing *)
Short(t) == CASE t \in {"100.0", "1E2"} -> "100" [] t = "36.00" -> "36" [] OTHER -> t
NoGeoNode(n) == [n EXCEPT !.x = "", !.y = ""]
NoGeoNodes(f) == [n \in DOMAIN f |-> NoGeoNode(f[n])]
NoGeoFlows(f) == [e \in DOMAIN f |-> [f[e] EXCEPT !.wps = <<>>]]
=============================================================================
