-------------------------------- MODULE Xml ---------------------------------
(***************************************************************************)
(* BPMN 2.0 documents as abstract values, what importing a document has to *)
(* give (ImportDoc), and what exporting a diagram has to write (ExportDoc).*)
(*                                                                         *)
(* A document is a record of sequences (document order):                   *)
(*  procs  [id,name,isClosed,isExecutable,processType,laneSet]             *)
(*  nodes  [id,type,parent,name,inc,out,a,defs]   parent: container id     *)
(*  flows  [id,parent,name,src,tgt,cond]                                   *)
(*  lanes  [id,process,parent,setId,name,refs]                             *)
(*  parts  [id,name,ref]   msgs [id,name,src,tgt]   collab [present,id]    *)
(*  shapes [el,x,y,w,h,horiz,expanded]   edges [el,wps]                    *)
(*  diag   [id,name]       plane [id,el]                                   *)
(* An attribute that is not written is ABSENT.                             *)
(***************************************************************************)
EXTENDS Bpmn

Or(v, dflt) == IF v = ABSENT THEN dflt ELSE v

NormDef(d) == [d EXCEPT !.id = Or(@, "")]
NormDefs(s) == [i \in DOMAIN s |-> NormDef(s[i])]

(* attributes of a node type and their defaults; ABSENT: no default *)
TypeAttrs(t) ==
  CASE t \in TaskTypes -> [default |-> ABSENT]
    [] t = "subProcess" -> [default |-> ABSENT, triggeredByEvent |-> "false", isExpanded |-> "false"]
    [] t \in {"inclusiveGateway", "exclusiveGateway", "complexGateway"} ->
                 [default |-> ABSENT, gatewayDirection |-> "Unspecified"]
    [] t = "parallelGateway" -> [gatewayDirection |-> "Unspecified"]
    [] t = "eventBasedGateway" -> [gatewayDirection |-> "Unspecified", instantiate |-> "false", eventGatewayType |-> "Exclusive"]
    [] t = "startEvent" -> [parallelMultiple |-> "false", isInterrupting |-> "true"]
    [] t = "intermediateCatchEvent" -> [parallelMultiple |-> "false"]
    [] t = "boundaryEvent" -> [parallelMultiple |-> "false", cancelActivity |-> "true", attachedToRef |-> ""]
    [] t = "dataObject" -> [isCollection |-> "false"]
    [] OTHER -> EmptyFn

FullAttrs(t, a) ==   \* attributes a document gives to a node, defaults filled in
  [k \in AttrNames |-> IF k \in DOMAIN TypeAttrs(t) THEN Or(Get(a, k, ABSENT), TypeAttrs(t)[k]) ELSE ABSENT]

FirstWith(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN s[Min(I)]
HasOne(s, P(_)) == \E i \in DOMAIN s : P(s[i])
Sel(s, P(_)) == SelectSeq(s, P)
MapIds(s) == [i \in DOMAIN s |-> s[i].id]

HasShape(doc, el) == HasOne(doc.shapes, LAMBDA s : s.el = el)
(* a document may draw only some of its elements *)
NoShape(el) == [el |-> el, x |-> ABSENT, y |-> ABSENT, w |-> ABSENT, h |-> ABSENT, horiz |-> ABSENT, expanded |-> ABSENT]
ShapeOf(doc, el) == IF HasShape(doc, el) THEN FirstWith(doc.shapes, LAMBDA s : s.el = el) ELSE NoShape(el)
HasEdge(doc, el) == HasOne(doc.edges, LAMBDA s : s.el = el)
EdgeOf(doc, el) == FirstWith(doc.edges, LAMBDA s : s.el = el)
Drawn(doc, el, v) == IF HasShape(doc, el) THEN v ELSE ABSENT

(* ------------------------------- importing ------------------------------- *)
Listed(lst, own) == lst \o Sel(own, LAMBDA f : ~ \E i \in DOMAIN lst : lst[i] = f)

ImportNode(doc, n) ==
  LET s == ShapeOf(doc, n.id)
      inFlows == MapIds(Sel(doc.flows, LAMBDA f : f.tgt = n.id)) \o MapIds(Sel(doc.msgs, LAMBDA f : f.tgt = n.id))
      outFlows == MapIds(Sel(doc.flows, LAMBDA f : f.src = n.id)) \o MapIds(Sel(doc.msgs, LAMBDA f : f.src = n.id))
      a0 == FullAttrs(n.type, n.a)
  IN [id |-> n.id, type |-> n.type, name |-> Or(n.name, ""), process |-> n.parent,
      inc |-> Listed(n.inc, inFlows), out |-> Listed(n.out, outFlows),
      x |-> s.x, y |-> s.y, w |-> s.w, h |-> s.h,
      a |-> IF n.type = "subProcess" THEN [a0 EXCEPT !.isExpanded = Drawn(doc, n.id, Or(s.expanded, "false"))] ELSE a0,
      defs |-> NormDefs(n.defs),
      nids |-> IF n.type = "subProcess" THEN MapIds(Sel(doc.nodes, LAMBDA m : m.parent = n.id)) ELSE <<>>]

(* a pool without a process is a node of its own *)
ImportPool(doc, p) ==
  LET s == ShapeOf(doc, p.id) IN
  [id |-> ABSENT, type |-> "participant", name |-> ABSENT, process |-> p.id,
   inc |-> MapIds(Sel(doc.msgs, LAMBDA f : f.tgt = p.id)), out |-> MapIds(Sel(doc.msgs, LAMBDA f : f.src = p.id)),
   x |-> s.x, y |-> s.y, w |-> s.w, h |-> s.h, a |-> NoAttrs, defs |-> <<>>, nids |-> <<>>]

BlackBox(doc) == Sel(doc.parts, LAMBDA p : p.ref \in {ABSENT, ""})

ById(s, F(_)) == [i \in {s[j].id : j \in DOMAIN s} |-> F(FirstWith(s, LAMBDA r : r.id = i))]

Row(f) == [name |-> Or(f.name, ""), src |-> f.src, tgt |-> f.tgt]
EdgeWps(doc, id) == IF HasEdge(doc, id) THEN EdgeOf(doc, id).wps ELSE <<>>
ImportFlow(doc, f) ==
  [id |-> f.id, name |-> Or(f.name, ""), process |-> f.parent, src |-> f.src, tgt |-> f.tgt,
   wps |-> EdgeWps(doc, f.id),
   cond |-> IF f.cond.has = "yes" THEN [f.cond EXCEPT !.id = Or(@, "")] ELSE f.cond]
ImportMsg(doc, f) ==
  [id |-> f.id, name |-> Or(f.name, ""), process |-> ABSENT, src |-> f.src, tgt |-> f.tgt,
   wps |-> EdgeWps(doc, f.id), cond |-> [has |-> "no", id |-> ABSENT, text |-> ABSENT]]

ImportLane(doc, l) ==
  LET s == ShapeOf(doc, l.id) IN
  [id |-> l.id, process |-> l.process, parent |-> l.parent, setId |-> Or(l.setId, ""), name |-> Or(l.name, ""),
   horiz |-> Drawn(doc, l.id, Or(s.horiz, "")), x |-> s.x, y |-> s.y, w |-> s.w, h |-> s.h, refs |-> l.refs]

ImportPart(doc, p) ==
  LET s == ShapeOf(doc, p.id) IN
  [name |-> Or(p.name, ""), ref |-> Or(p.ref, ""), horiz |-> Drawn(doc, p.id, Or(s.horiz, "")), x |-> s.x, y |-> s.y, w |-> s.w, h |-> s.h]

ImportProc(doc, p) ==
  [name |-> Or(p.name, ""), isClosed |-> Or(p.isClosed, "false"), isExecutable |-> Or(p.isExecutable, "false"),
   processType |-> Or(p.processType, "None"), laneSet |-> p.laneSet,
   nids |-> MapIds(Sel(doc.nodes, LAMBDA n : n.parent = p.id))]

ImportDoc(doc) ==
  [nodes |-> ById(doc.nodes, LAMBDA n : ImportNode(doc, n)) @@ ById(BlackBox(doc), LAMBDA p : ImportPool(doc, p)),
   flows |-> ById(doc.flows, LAMBDA f : ImportFlow(doc, f)) @@ ById(doc.msgs, LAMBDA f : ImportMsg(doc, f)),
   seq |-> ById(doc.flows, Row), procs |-> ById(doc.procs, LAMBDA p : ImportProc(doc, p)),
   lanes |-> ById(doc.lanes, LAMBDA l : ImportLane(doc, l)),
   collab |-> IF doc.collab.present = "yes" THEN doc.collab ELSE [present |-> "no", id |-> ABSENT],
   parts |-> ById(doc.parts, LAMBDA p : ImportPart(doc, p)), msgs |-> ById(doc.msgs, Row),
   diag |-> [id |-> doc.diag.id, name |-> Or(doc.diag.name, "")], plane |-> doc.plane]

(* ------------------------------- exporting ------------------------------- *)
(* The content of an exported document: every list as a bag (function from *)
(* element to number of occurrences), defaults filled in.                  *)
BagMap(S, F(_)) == [v \in {F(x) : x \in S} |-> Cardinality({x \in S : F(x) = v})]
BagSeq(s, F(_)) == LET t == [i \in DOMAIN s |-> F(s[i])] IN BagOf(t)

AttrsNoDi(t, a) == [FullAttrs(t, a) EXCEPT !.isExpanded = ABSENT]
Blank0(v) == IF v = "" THEN ABSENT ELSE v    \* an empty reference is no reference
NodeContent(id, t, parent, name, inc, out, a, defs) ==
  [id |-> id, type |-> t, parent |-> parent, name |-> name, inc |-> inc, out |-> out,
   a |-> AttrsNoDi(t, a), defs |-> BagOf(defs)]
Label(name, cond) == IF name = "" /\ cond.has = "yes" THEN cond.text ELSE name
NormCond(c) == IF c.has = "yes" THEN [c EXCEPT !.id = Or(@, "")] ELSE c

(* nodes and flows that belong to a process of the diagram, however deep *)
RECURSIVE Owned(_, _)
Owned(d, S) == LET T == S \cup {n \in DOMAIN d.nodes : d.nodes[n].process \in S /\ d.nodes[n].type # "participant"}
               IN IF T = S THEN S ELSE Owned(d, T)
OwnedNodes(d) == Owned(d, DOMAIN d.procs) \ DOMAIN d.procs

ProcContent(id, p) == [id |-> id, name |-> p.name, isClosed |-> p.isClosed, isExecutable |-> p.isExecutable,
                       processType |-> p.processType]
ExportCore(d) ==   \* processes, flow nodes and sequence flows
  LET own == OwnedNodes(d) IN
  [procs |-> BagMap(DOMAIN d.procs, LAMBDA p : ProcContent(p, d.procs[p])),
   nodes |-> BagMap(own, LAMBDA n : NodeContent(n, d.nodes[n].type, d.nodes[n].process, d.nodes[n].name, d.nodes[n].inc,
                                                 d.nodes[n].out, d.nodes[n].a, NormDefs(d.nodes[n].defs))),
   flows |-> BagMap({f \in DOMAIN d.flows : d.flows[f].process \in DOMAIN d.procs \cup own},
                    LAMBDA f : [id |-> f, parent |-> d.flows[f].process,
                                name |-> Label(d.flows[f].name, d.flows[f].cond),
                                src |-> d.flows[f].src, tgt |-> d.flows[f].tgt, cond |-> d.flows[f].cond])]
ExportCollab(d) ==
  [collab |-> d.collab,
   sets |-> BagMap({p \in DOMAIN d.procs : d.procs[p].laneSet # ABSENT},
                   LAMBDA p : [process |-> p, id |-> d.procs[p].laneSet]),
   lanes |-> BagMap(DOMAIN d.lanes, LAMBDA l : [id |-> l, process |-> d.lanes[l].process, parent |-> d.lanes[l].parent,
                                                setId |-> d.lanes[l].setId, name |-> d.lanes[l].name, refs |-> d.lanes[l].refs]),
   parts |-> BagMap(DOMAIN d.parts, LAMBDA p : [id |-> p, name |-> d.parts[p].name, ref |-> d.parts[p].ref]),
   msgs |-> BagMap(DOMAIN d.msgs, LAMBDA m : [id |-> m, name |-> d.msgs[m].name, src |-> d.msgs[m].src, tgt |-> d.msgs[m].tgt])]
ShapeRec(el, r, horiz, expanded) ==
  [el |-> el, x |-> r.x, y |-> r.y, w |-> r.w, h |-> r.h, horiz |-> horiz, expanded |-> expanded]
Placed(r) == r.x # ABSENT     \* elements that are not drawn have no shape and no edge
ExportShapes(d) ==
  [nodes |-> BagMap({n \in DOMAIN d.nodes : d.nodes[n].type # "participant" /\ Placed(d.nodes[n])},
                    LAMBDA n : ShapeRec(n, d.nodes[n], "", IF d.nodes[n].type = "subProcess"
                                                            THEN Or(d.nodes[n].a.isExpanded, "false") ELSE "false")),
   lanes |-> BagMap({l \in DOMAIN d.lanes : Placed(d.lanes[l])}, LAMBDA l : ShapeRec(l, d.lanes[l], d.lanes[l].horiz, "false")),
   parts |-> BagMap({p \in DOMAIN d.parts : Placed(d.parts[p])}, LAMBDA p : ShapeRec(p, d.parts[p], d.parts[p].horiz, "false")),
   edges |-> BagMap({f \in DOMAIN d.flows : d.flows[f].wps # <<>>}, LAMBDA f : [el |-> f, wps |-> d.flows[f].wps])]

(* the same content, read off a document *)
DocCore(doc) ==
  [procs |-> BagSeq(doc.procs, LAMBDA p : ProcContent(p.id, [name |-> Or(p.name, ""), isClosed |-> Or(p.isClosed, "false"),
                                   isExecutable |-> Or(p.isExecutable, "false"), processType |-> Or(p.processType, "None")])),
   nodes |-> BagSeq(doc.nodes, LAMBDA n : NodeContent(n.id, n.type, n.parent, Or(n.name, ""), n.inc, n.out, n.a, NormDefs(n.defs))),
   flows |-> BagSeq(doc.flows, LAMBDA f : [id |-> f.id, parent |-> f.parent, name |-> Or(f.name, ""), src |-> f.src,
                                           tgt |-> f.tgt, cond |-> NormCond(f.cond)])]
DocCollab(doc) ==
  [collab |-> IF doc.collab = <<>> THEN [present |-> "no", id |-> ABSENT]
              ELSE IF Len(doc.collab) > 1 THEN [present |-> "several", id |-> ABSENT]
              ELSE [present |-> "yes", id |-> doc.collab[1].id],
   sets |-> BagSeq(Sel(doc.procs, LAMBDA p : p.laneSet # ABSENT), LAMBDA p : [process |-> p.id, id |-> p.laneSet]),
   lanes |-> BagSeq(doc.lanes, LAMBDA l : [id |-> l.id, process |-> l.process, parent |-> l.parent, setId |-> Or(l.setId, ""),
                                           name |-> Or(l.name, ""), refs |-> l.refs]),
   parts |-> BagSeq(doc.parts, LAMBDA p : [id |-> p.id, name |-> Or(p.name, ""), ref |-> Or(p.ref, "")]),
   msgs |-> BagSeq(doc.msgs, LAMBDA m : [id |-> m.id, name |-> Or(m.name, ""), src |-> m.src, tgt |-> m.tgt])]
NormShape(s) == [s EXCEPT !.horiz = Or(@, ""), !.expanded = Or(@, "false")]
DocShapes(doc, d) ==
  LET of(S) == BagSeq(Sel(doc.shapes, LAMBDA s : s.el \in S), NormShape)
      nd == {n \in DOMAIN d.nodes : d.nodes[n].type # "participant"}
  IN [nodes |-> of(nd), lanes |-> of(DOMAIN d.lanes), parts |-> of(DOMAIN d.parts),
      edges |-> BagSeq(doc.edges, LAMBDA e : [el |-> e.el, wps |-> e.wps])]
StrayShapes(doc, d) == {i \in DOMAIN doc.shapes : doc.shapes[i].el \notin DOMAIN d.nodes \cup DOMAIN d.lanes \cup DOMAIN d.parts}

(* --------------------- the diagram after export and import ---------------- *)
(* unnamed conditional flows get their condition as label; the children of *)
(* built processes and sub-processes become their lists of nodes            *)
Children(d, c) == {n \in DOMAIN d.nodes : d.nodes[n].process = c /\ d.nodes[n].type # "participant"}
AfterCycle(d) ==
  [d EXCEPT !.flows = [f \in DOMAIN @ |-> [@[f] EXCEPT !.name = Label(@, d.flows[f].cond)]],
            !.seq = [f \in DOMAIN @ |-> [@[f] EXCEPT !.name = Label(@, d.flows[f].cond)]],
            !.nodes = [n \in DOMAIN @ |-> IF @[n].type = "subProcess" /\ Placed(@[n]) THEN [@[n] EXCEPT !.a.isExpanded = Or(@, "false")] ELSE @[n]],
            !.diag = [@ EXCEPT !.name = Or(@, "")]]
NoNids(d) == [d EXCEPT !.nodes = [n \in DOMAIN @ |-> [CanonNode(@[n]) EXCEPT !.nids = <<>>]],
                       !.procs = [p \in DOMAIN @ |-> [@[p] EXCEPT !.nids = <<>>]]]
NidsRight(d) == /\ \A p \in DOMAIN d.procs : NoDup(d.procs[p].nids) /\ SeqSet(d.procs[p].nids) = Children(d, p)
                /\ \A n \in DOMAIN d.nodes : d.nodes[n].type = "subProcess" =>
                      (NoDup(d.nodes[n].nids) /\ SeqSet(d.nodes[n].nids) = Children(d, n))
=============================================================================
