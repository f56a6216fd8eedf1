-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* The verdict on one recorded event: the set of <<property, clause>> that *)
(* the step from the state before to the state after breaks.               *)
(***************************************************************************)
EXTENDS Xml, Csv, Draw, Elements, Layout, Geometry, Metrics, Json, IOUtils

(* PROP (environment): the only property to judge, or "all" *)
PROP == IOEnv.PROP
V(ok, prop, clause) == IF PROP \notin {prop, "all"} THEN {} ELSE IF ok THEN {} ELSE {<<prop, clause>>}

ReadOps == {"queries", "reads", "metrics", "paths", "cross", "export", "nodi", "csvexport", "csvrefused", "dot", "png", "draw"}

(* ----------------------------- building calls ---------------------------- *)
DefIdOf(rec) == IF rec.defs = <<>> THEN ABSENT ELSE rec.defs[1].id

JudgeNode(before, after, e, r, used) ==
  IF Refused(before, r)
  THEN V(e.res # "ok", "C03", "refuses") \cup V(after = before, "C03", "refused call changes nothing")
  ELSE IF e.res # "ok" THEN {<<"C01", "call succeeds">>} \cup V(after = before, "C03", "failed call changes nothing")
  ELSE LET id == e.ret.id
           stored == Get(after.nodes, id, e.ret.rec)
           defId == DefIdOf(stored)
       IN V(IF r.id = ABSENT THEN id \notin used ELSE id = r.id, "C01", "id")
          \cup V(id \in DOMAIN after.nodes, "C01", "stored under its id")
          \cup V(stored = BuiltNode(r, id, defId), "C01", "stored element")
          \cup V(stored.defs = <<>> \/ defId \notin used \cup {id, ABSENT}, "C01", "id of the event definition")
          \cup V(e.ret.rec = stored, "C01", "returned element")
          \cup V(after = AddNode(before, id, stored), "C01", "rest unchanged")

JudgeFlow(before, after, e, r, used) ==
  IF Refused(before, r)
  THEN V(e.res # "ok", "C03", "refuses") \cup V(after = before, "C03", "refused call changes nothing")
  ELSE IF e.res # "ok" THEN {<<"C02", "call succeeds">>}
  ELSE LET id == e.ret.id
           want == AddFlow(before, id, r)
       IN V(id \notin used, "C02", "id")
          \cup V(id \in DOMAIN after.flows /\ after.flows[id] = want.flows[id], "C02", "flow")
          \cup V(id \in DOMAIN after.flows /\ e.ret.rec = after.flows[id], "C02", "returned flow")
          \cup V(after.seq = want.seq, "C02", "flow table")
          \cup V(after.nodes = want.nodes, "C02", "incoming and outgoing lists")
          \cup V(after = want, "C02", "everything else unchanged")

JudgeProcess(before, after, e, r, used) ==
  IF e.res # "ok" THEN {<<"C01", "call succeeds">>}
  ELSE LET id == e.ret.id IN
       V(id \notin used, "C01", "id")
       \cup V(after.plane.id \notin used \cup {id, ABSENT}, "C01", "plane")
       \cup V(after = AddProcess(before, id, after.plane.id, r), "C01", "process")

JudgeNew(before, after, e, r, used) ==
  IF e.res # "ok" THEN {<<"C01", "call succeeds">>, <<"C05", "call succeeds">>}
  ELSE V(after.diag.id \notin used \cup {ABSENT} /\ after.diag.name = r.name, "C01", "new diagram")
       \cup V(after.diag.id \notin used \cup {ABSENT} /\ after.diag.name = r.name, "C05", "id and name of the new diagram")
       \cup V([after EXCEPT !.diag = EmptyDiagram.diag] = EmptyDiagram, "C05", "new diagram is empty")

(* -------------------------------- queries -------------------------------- *)
Items(S, d) == {<<n, d.nodes[n]>> : n \in S}
FItems(S, d) == {<<d.flows[f].src, d.flows[f].tgt, d.flows[f]>> : f \in S}
Exactly(lst, S) == SeqSet(lst) = S /\ Len(lst) = Cardinality(S)

JudgeQueries(d, e) ==
  IF e.res # "ok" THEN {<<"C04", "queries answer">>}
  ELSE LET q == e.ret IN
    V(Exactly(q.all, Items(DOMAIN d.nodes, d)), "C04", "all nodes")
    \cup V(\A x \in SeqSet(q.bytype) : Exactly(x.items, Items(NodesOfType(d, x.k), d)), "C04", "nodes by kind")
    \cup V(\A x \in SeqSet(q.ids) : Exactly(x.items, NodesOfType(d, x.k)), "C04", "ids by kind")
    \cup V(\A x \in SeqSet(q.byproc) : Exactly(x.items, Items(NodesOfProc(d, x.k), d)), "C04", "nodes by owner")
    \cup V(\A x \in SeqSet(q.byid) : Exactly(x.items, Items(DOMAIN d.nodes \cap {x.k}, d)), "C04", "node by id")
    \cup V(Exactly(q.flows, FItems(DOMAIN d.flows, d)), "C04", "all flows")
    \cup V(\A x \in SeqSet(q.fbyid) : Exactly(x.items, FItems(DOMAIN d.flows \cap {x.k}, d)), "C04", "flow by id")
    \cup V(\A x \in SeqSet(q.fbyproc) : Exactly(x.items, FItems(FlowsOfProc(d, x.k), d)), "C04", "flows by owner")
    \cup V(q.placed = "no" \/ Exactly(q.pos, {<<n, Short(d.nodes[n].x), Short(d.nodes[n].y)>> : n \in DOMAIN d.nodes}), "C04", "positions")
    \cup V(q.again = "yes", "C06", "same answer again")

JudgeReads(e) ==
  IF e.res # "ok" THEN {} ELSE V(\A r \in SeqSet(e.ret.reads) : r.again = "yes", "C06", "same answer again")

(* ----------------------------- XML documents ----------------------------- *)
ImpDoc(run, k) == run.docs[k]
WrittenA(doc, n) == LET r == FirstWith(doc.nodes, LAMBDA x : x.id = n) IN {k \in DOMAIN r.a : r.a[k] # ABSENT}
(* a node without the attributes and names the document leaves out *)
MaskNode(doc, n, rec) ==
  IF ~ HasOne(doc.nodes, LAMBDA x : x.id = n) THEN rec
  ELSE LET r == FirstWith(doc.nodes, LAMBDA x : x.id = n)
           wr == {k \in DOMAIN r.a : r.a[k] # ABSENT} \cup (IF rec.type = "subProcess" THEN {"isExpanded"} ELSE {})
       IN [CanonNode(rec) EXCEPT !.inc = <<>>, !.out = <<>>, !.nids = BagOf(@),
                      !.name = IF r.name = ABSENT THEN "" ELSE @,
                      !.a = [k \in DOMAIN @ |-> IF k \in wr THEN @[k] ELSE ABSENT]]
PoolNode(d, n) == d.nodes[n].type = "participant"
RealNodes(d) == {n \in DOMAIN d.nodes : ~ PoolNode(d, n)}
MaskNodes(doc, d) == [n \in RealNodes(d) |-> MaskNode(doc, n, d.nodes[n])]
PartOf(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
SeqFlows(d) == PartOf(d.flows, DOMAIN d.flows \ DOMAIN d.msgs)
MsgFlows(d) == PartOf(d.flows, DOMAIN d.msgs)
MaskProc(doc, p, rec) ==
  IF ~ HasOne(doc.procs, LAMBDA x : x.id = p) THEN rec
  ELSE LET r == FirstWith(doc.procs, LAMBDA x : x.id = p)
           m(w, v) == IF w = ABSENT THEN "" ELSE v
       IN [name |-> m(r.name, rec.name), isClosed |-> m(r.isClosed, rec.isClosed), isExecutable |-> m(r.isExecutable, rec.isExecutable),
           processType |-> m(r.processType, rec.processType), nids |-> BagOf(rec.nids)]
MaskProcs(doc, d) == [p \in DOMAIN d.procs |-> MaskProc(doc, p, d.procs[p])]

(* the attributes the document leaves out *)
Defaults(doc, d) ==
  [n \in RealNodes(d) |-> IF ~ HasOne(doc.nodes, LAMBDA x : x.id = n) THEN <<>>
     ELSE LET r == FirstWith(doc.nodes, LAMBDA x : x.id = n)
          IN [a |-> [k \in {k \in DOMAIN r.a : r.a[k] = ABSENT} \ {"isExpanded"} |-> d.nodes[n].a[k]],
              name |-> IF r.name = ABSENT THEN d.nodes[n].name ELSE ""]]
(* lanes and pools that leave something out *)
LaneDefaults(doc, d) ==
  LET sh(x) == ~ HasShape(doc, x) \/ ShapeOf(doc, x).horiz = ABSENT
      L == {l \in DOMAIN d.lanes : sh(l) \/ HasOne(doc.lanes, LAMBDA x : x.id = l /\ x.name = ABSENT)}
      P == {p \in DOMAIN d.parts : sh(p) \/ HasOne(doc.parts, LAMBDA x : x.id = p /\ (x.name = ABSENT \/ x.ref = ABSENT))}
  IN [lanes |-> [l \in L |-> d.lanes[l]], parts |-> [p \in P |-> d.parts[p]]]
ProcDefaults(doc, d) ==
  [p \in DOMAIN d.procs |-> IF ~ HasOne(doc.procs, LAMBDA x : x.id = p) THEN <<>>
     ELSE LET r == FirstWith(doc.procs, LAMBDA x : x.id = p)
              m(w, v) == IF w = ABSENT THEN v ELSE ""
          IN <<m(r.name, d.procs[p].name), m(r.isClosed, d.procs[p].isClosed),
               m(r.isExecutable, d.procs[p].isExecutable), m(r.processType, d.procs[p].processType)>>]

NodeLists(d) == [n \in DOMAIN d.nodes |-> <<d.nodes[n].inc, d.nodes[n].out>>]
Collab(d) == [lanes |-> d.lanes, collab |-> d.collab, parts |-> d.parts, msgs |-> d.msgs,
              sets |-> [p \in DOMAIN d.procs |-> d.procs[p].laneSet],
              pools |-> [n \in {m \in DOMAIN d.nodes : PoolNode(d, m)} |-> [d.nodes[n] EXCEPT !.inc = <<>>, !.out = <<>>]]]

(* for documents written in another way: the order inside the lists of flows and of contained nodes may differ *)
Loose(d) == [d EXCEPT !.nodes = [n \in DOMAIN @ |-> LET r == CanonNode(@[n]) IN
                                    [r EXCEPT !.inc = BagOf(@), !.out = BagOf(@), !.nids = BagOf(@)]],
                      !.procs = CanonProcs(@)]

Canonical(style) == \A k \in DOMAIN style : style[k] = ""
PlainLoad(run, k, doc) ==   \* event of this run before k that loaded the same document in plain style
  {j \in 1..(k - 1) : LET e == run.events[j] IN e.op = "load" /\ e.res = "ok" /\ e.args.doc = doc /\ Canonical(e.args.style)}

JudgeLoad(run, k, before, after, e) ==
  LET doc == ImpDoc(run, e.args.doc)
      want == ImportDoc(doc)
      plain == PlainLoad(run, k, e.args.doc)
  IN IF Canonical(e.args.style)
     THEN IF e.res # "ok" THEN {<<"C07", "loads">>} \cup (IF doc.collab.present = "yes" THEN {<<"C12", "loads">>} ELSE {})
          ELSE
          V(MaskNodes(doc, after) = MaskNodes(doc, want), "C07", "flow nodes")
          \cup V(SeqFlows(after) = SeqFlows(want), "C07", "sequence flows")
          \cup V(after.seq = want.seq, "C07", "flow table")
          \cup V(MaskProcs(doc, after) = MaskProcs(doc, want), "C07", "processes")
          \cup V(after.diag = want.diag /\ after.plane = want.plane, "C07", "diagram and plane")
          \cup V(Defaults(doc, after) = Defaults(doc, want), "C08", "defaults of nodes")
          \cup V(ProcDefaults(doc, after) = ProcDefaults(doc, want), "C08", "defaults of processes")
          \cup V(LaneDefaults(doc, after) = LaneDefaults(doc, want), "C08", "defaults of lanes and pools")
          \cup V(NodeLists(after) = NodeLists(want), "C02", "order of incoming and outgoing flows")
          \cup V(Collab(after) = Collab(want), "C12", "pools, lanes and message flows")
          \cup V(MsgFlows(after) = MsgFlows(want), "C12", "message flows")
     ELSE IF e.res # "ok" THEN {<<"C08", "loads">>, <<"C07", "loads">>}
          ELSE (IF e.args.style.omit = "yes" THEN {}
                ELSE V(MaskNodes(doc, after) = MaskNodes(doc, want), "C07", "flow nodes")
                     \cup V(SeqFlows(after) = SeqFlows(want), "C07", "sequence flows")
                     \cup V(after.seq = want.seq, "C07", "flow table")
                     \cup V(MaskProcs(doc, after) = MaskProcs(doc, want), "C07", "processes")
                     \cup V(after.diag = want.diag /\ after.plane = want.plane, "C07", "diagram and plane")
                     \cup V(Collab(after) = Collab(want), "C12", "pools, lanes and message flows")
                     \cup V(MsgFlows(after) = MsgFlows(want), "C12", "message flows"))
               \cup
               (IF plain = {} THEN V(Loose(after) = Loose(want), "C08", "same diagram")
                ELSE V(Loose(after) = Loose(run.states[run.events[Min(plain)].post[run.events[Min(plain)].o]]), "C08", "same diagram"))
               \cup V(Defaults(doc, after) = Defaults(doc, want), "C08", "defaults of nodes")
               \cup V(ProcDefaults(doc, after) = ProcDefaults(doc, want), "C08", "defaults of processes")

Content(doc) == [core |-> DocCore(doc), collab |-> DocCollab(doc), shapes |-> BagOf([j \in DOMAIN doc.shapes |-> NormShape(doc.shapes[j])]),
                 edges |-> BagOf(doc.edges), diag |-> [j \in DOMAIN doc.diag |-> [doc.diag[j] EXCEPT !.name = Or(@, "")]], plane |-> doc.plane]

(* the export an object was loaded from, if nothing has changed it since *)
Origin(run, k, o) ==
  LET loads == {j \in 1..(k - 1) : run.events[j].op = "reload" /\ run.events[j].o = o /\ run.events[j].res = "ok"} IN
  IF loads = {} THEN 0
  ELSE IF \A j \in (Max(loads) + 1)..(k - 1) : run.events[j].o # o \/ run.events[j].op \in ReadOps
       THEN run.events[Max(loads)].args.file + 1 ELSE 0

(* is the diagram one that can be written: flows have routes and stay in one container *)
Lifted(d) == \A f \in DOMAIN d.flows : d.flows[f].process \in DOMAIN d.procs \cup OwnedNodes(d) \/ f \in DOMAIN d.msgs

JudgeExport(run, k, d, e) ==
  LET org == Origin(run, k, e.o) IN
  IF e.res # "ok" THEN {<<"C09", "exports well-formed XML">>}
                       \cup (IF d.collab.present = "yes" THEN {<<"C12", "exports">>} ELSE {})
                       \cup (IF org = 0 THEN {} ELSE {<<"C10", "exports again">>})
  ELSE LET doc == e.ret.doc
           shp == DocShapes(doc, d)
           wshp == ExportShapes(d)
       IN V(doc.extra = <<>>, "C09", "nothing foreign in the document")
          \cup V(DocCore(doc).procs = ExportCore(d).procs, "C09", "processes")
          \cup V(DocCore(doc).nodes = ExportCore(d).nodes, "C09", "flow nodes")
          \cup V(DocCore(doc).flows = ExportCore(d).flows, "C09", "sequence flows")
          \cup V(DocCollab(doc) = ExportCollab(d), "C09", "collaboration and lanes")
          \cup V(shp = wshp /\ StrayShapes(doc, d) = {}, "C09", "shapes and edges")
          \cup V(DocCollab(doc) = ExportCollab(d), "C12", "collaboration and lanes written")
          \cup V(shp.lanes = wshp.lanes /\ shp.parts = wshp.parts, "C12", "shapes of lanes and pools")
          \cup V(BagSeq(Sel(doc.edges, LAMBDA x : x.el \in DOMAIN d.msgs), LAMBDA x : <<x.el, x.wps>>)
                 = BagMap({m \in DOMAIN d.msgs : d.flows[m].wps # <<>>}, LAMBDA m : <<m, d.flows[m].wps>>), "C12", "routes of message flows")
          \cup V(Len(doc.diag) = 1 /\ Len(doc.plane) = 1, "C09", "one diagram section")
          \cup (IF org = 0 \/ run.events[org].res # "ok" THEN {}
                ELSE V(Content(doc) = Content(run.events[org].ret.doc), "C10", "same document again"))

JudgeReload(run, after, e) ==
  LET src == run.events[e.args.file + 1] IN
  IF src.res # "ok" THEN {}
  ELSE IF e.res # "ok" THEN {<<"C10", "loads its own export">>}
                            \cup (IF run.states[src.post[src.o]].collab.present = "yes" THEN {<<"C12", "loads its own export">>} ELSE {})
  ELSE LET d == run.states[src.post[src.o]]
           want == AfterCycle(d)
       IN IF src.op # "export" THEN {}
          ELSE V(NoNids(after).nodes = NoNids(want).nodes, "C10", "nodes")
               \cup V(after.flows = want.flows, "C10", "flows")
               \cup V(after.seq = want.seq /\ after.msgs = want.msgs, "C10", "flow tables")
               \cup V(NoNids(after).procs = NoNids(want).procs, "C10", "processes")
               \cup V(after.diag = want.diag /\ after.plane = want.plane, "C10", "diagram and plane")
               \cup V(NidsRight(after), "C10", "contained nodes")
               \cup V(after.lanes = want.lanes /\ after.collab = want.collab /\ after.parts = want.parts, "C10", "pools and lanes")
               \cup V(Collab(after) = Collab(want) /\ MsgFlows(after) = MsgFlows(want), "C12", "pools and lanes survive")

Where(doc) == [procs |-> BagSeq(doc.procs, LAMBDA p : p.id),
               nodes |-> BagSeq(doc.nodes, LAMBDA n : <<n.id, n.type, n.parent>>),
               flows |-> BagSeq(doc.flows, LAMBDA f : <<f.id, f.parent, f.src, f.tgt>>)]
OwnersOf(d) ==
  LET own == OwnedNodes(d) IN
  [procs |-> BagMap(DOMAIN d.procs, LAMBDA p : p),
   nodes |-> BagMap(own, LAMBDA n : <<n, d.nodes[n].type, d.nodes[n].process>>),
   flows |-> BagMap({f \in DOMAIN d.flows : d.flows[f].process \in DOMAIN d.procs \cup own},
                    LAMBDA f : <<f, d.flows[f].process, d.flows[f].src, d.flows[f].tgt>>)]
JudgeNodi(d, e) ==
  IF e.res # "ok" THEN {<<"C11", "exports well-formed XML">>}
  ELSE LET doc == e.ret.doc IN
       V(doc.extra = <<>>, "C11", "nothing foreign in the document")
       \cup V(doc.shapes = <<>> /\ doc.edges = <<>> /\ doc.diag = <<>> /\ doc.plane = <<>>, "C11", "no layout data")
       \cup V(DocCore(doc) = (IF e.ret.full = <<>> THEN ExportCore(d) ELSE DocCore(e.ret.full[1])), "C11", "same content as the full export")
       \cup V(Where(doc) = OwnersOf(d), "C11", "every element once, in its container")

(* ------------------------- layout and its metrics ------------------------ *)
JudgeLayout(before, after, e) ==
  IF e.res # "ok" THEN {<<"C13", IF e.res = "timeout" THEN "terminates" ELSE "finishes without error">>}
  ELSE LET pos == e.ret.pos  routes == e.ret.routes
           placed == AllPlaced(before, pos)
           routed == RouteLengths(before, routes)
       IN V(placed, "C13", "every node on the grid")
          \cup V(OwnPlace(pos), "C13", "a place of its own")
          \cup (IF DOMAIN pos = DOMAIN before.nodes THEN V(RightOfPredecessor(before, pos), "C13", "right of its predecessor")
                                                     \cup V(EntriesLeftmost(before, pos), "C13", "begins in the leftmost column")
                                                     \cup V(RightOfSome(before, pos), "C13", "right of one of its predecessors") ELSE {})
          \cup V(routed, "C14", "every flow has a route")
          \cup (IF ~ (placed /\ routed) THEN {}
                ELSE V(RouteStarts(before, pos, routes), "C14", "route starts at the centre of its source")
                     \cup V(RouteEnds(before, pos, routes), "C14", "route ends at the border of its target")
                     \cup V(RouteBends(before, pos, routes), "C14", "route bends where it should"))
          \cup V(Ungeo(Sized(before, after)) = Ungeo(before), "C14", "only geometry changes")

Table(t) == [k \in {t[j][1] : j \in DOMAIN t} |-> (FirstWith(t, LAMBDA x : x[1] = k))[2]]
JudgeMetrics(d, e) ==
  IF e.res # "ok" THEN {<<"C15", "metrics answer">>, <<"C16", "metrics answer">>}
  ELSE LET m == e.ret
           nn == Cardinality(DOMAIN d.nodes)  nf == Cardinality(DOMAIN d.flows)  gs == Cardinality(Gateways(d))
       IN V(m.count = nn, "C15", "number of nodes")
          \cup V(\A j \in DOMAIN m.counts : m.counts[j][2] = CountT(d, m.counts[j][1]), "C15", "number of nodes of a kind")
          \cup V(Exactly(m.gateways, Gateways(d)), "C15", "list of gateways")
          \cup V(Table(m.gw) = [t \in GatewayTypes |-> CountT(d, t)], "C15", "gateways by kind")
          \cup V(Table(m.ev) = [t \in EventTypes |-> CountT(d, t)], "C15", "events by kind")
          \cup V(Table(m.act) = [t \in ActivityTypes |-> CountT(d, t)], "C15", "activities by kind")
          \cup V(m.allact = CountIn2(d, ActivityTypes) /\ m.NOA = CountIn2(d, ActivityTypes), "C15", "activities")
          \cup V(m.allgw = gs, "C15", "gateways")
          \cup V(m.allev = CountIn2(d, EventTypes) /\ m.TNE = CountIn2(d, EventTypes), "C15", "events")
          \cup V(m.TNSE = CountT(d, "startEvent") /\ m.TNEE = CountT(d, "endEvent")
                 /\ m.TNIE = CountIn2(d, IntermediateTypes), "C15", "start, intermediate and end events")
          \cup V(m.allcf = CountIn2(d, EventTypes \cup GatewayTypes), "C15", "control flow elements")
          \cup V(m.NOAC = CountIn2(d, EventTypes \cup GatewayTypes \cup ActivityTypes), "C15", "NOAC")
          \cup V(m.NON = CountIn2(d, EventTypes \cup GatewayTypes \cup ActivityTypes), "C15", "number of nodes metric")
          \cup V(m.NOAJS = CountIn2(d, GatewayTypes \cup ActivityTypes), "C15", "NOAJS")
          \cup V(m.GH = Cardinality({t \in GatewayTypes : CountT(d, t) > 0}), "C15", "gateway heterogeneity")
          \cup V(nn = 0 \/ SameRatio(m.CNC, nf, nn), "C16", "network complexity")
          \cup V(gs = 0 \/ SameRatio(m.AGD, GatewayDegreeSum(d), gs), "C16", "average gateway degree")
          \cup V(m.DSM = Durfee(d), "C16", "Durfee square")
          \cup V(m.PSM = PerfectSquare(d), "C16", "perfect square")

JudgeCross(e) ==
  IF e.res # "ok" THEN {<<"C17", "counts answer">>}
  ELSE V(e.ret.segs = SegmentCount(e.ret.routes), "C17", "segments")
       \cup V((\E r \in SeqSet(e.ret.routes) : \E p \in SeqSet(r) : BAD \in {p[1], p[2]})
              \/ e.ret.cross = CrossingCount(e.ret.routes), "C17", "crossings")
JudgePairs(e) ==
  IF e.res # "ok" THEN {<<"C17", "counts answer">>}
  ELSE V(\A j \in DOMAIN e.ret.pairs : LET p == e.ret.pairs[j] IN p[3] = (IF Crosses(p[1], p[2]) THEN 1 ELSE 0), "C17", "crossings")

JudgePaths(d, e) ==
  IF e.res # "ok" THEN {<<"C18", IF e.res = "timeout" THEN "terminates" ELSE "paths answer">>}
  ELSE LET p == e.ret  best == LongestLength(d) IN
       V(p.path = <<>> \/ FullPath(d, p.path), "C18", "a real path from start to end")
       \cup V(p.len = Len(p.path), "C18", "length of the path")
       \cup V(p.len = best, "C18", "no longer path")
       \cup V(p.tlen = Len(p.tpath) /\ p.tlen = MostTasks(d), "C18", "largest number of tasks")
       \cup V(NoDup(p.tpath) /\ TaskList(d, p.tpath), "C18", "tasks of a real path")

(* ------------------------------ spreadsheets ----------------------------- *)
GateKinds(nodes) == [n \in {m \in DOMAIN nodes : IsGate(nodes[m])} |-> nodes[n].type]
CondTable(flows) == {<<flows[f].src, flows[f].tgt, CondOf(flows[f])>> : f \in DOMAIN flows}
Named(flows) == [f \in DOMAIN flows |-> <<flows[f].id, flows[f].name, flows[f].process, flows[f].src, flows[f].tgt>>]

(* are the rows written in the order of the process? *)
InOrder(e) == e.args.style \notin {"reversed", "shuffled"}
JudgeLoadCsv(run, after, e) ==
  LET rows == run.csvs[e.args.csv] IN
  IF Dead(rows) # {} \/ (LostGotos(rows) # {} /\ Entered(rows)) THEN V(e.res = "refused", "C23", "refuses a process with dead ends")
  ELSE IF ~ Meant(rows) THEN {}
  ELSE IF e.res # "ok" THEN {<<"C19", "loads">>, <<"C20", "loads">>}
  ELSE LET nodes == SheetNodes(rows)  flows == SheetFlows(rows) IN
       V(Plainer(after.nodes) = Plainer(nodes), "C19", "nodes")
       \cup V(Wires(after.flows) = Wires(flows), "C19", "wiring")
       \cup V(\A n \in DOMAIN GateKinds(nodes) : (n \in DOMAIN after.nodes /\ (InOrder(e) \/ n \in {SplitId(rows, k) : k \in SplitRows(rows)}))
                 => after.nodes[n].type = nodes[n].type, "C20", "gateway kinds")
       \cup V(CondTable(after.flows) = CondTable(flows), "C20", "conditions and gotos")
       \cup V(Named(after.flows) = Named(flows), "C02", "ids, names and owners of the flows")

(* the rows an object was loaded from, if nothing but its layout changed since *)
ChangesOf(run, k, o) == {j \in 2..(k - 1) : run.events[j].o = o /\ run.events[j].op \notin ReadOps \cup {"layout"}}
RECURSIVE SheetOf(_, _, _)
SheetOf(run, k, o) ==
  LET C == ChangesOf(run, k, o) IN
  IF Cardinality(C) # 1 THEN <<>>
  ELSE LET e == run.events[Max(C)] IN
       IF e.res # "ok" THEN <<>>
       ELSE IF e.op = "loadcsv" THEN run.csvs[e.args.csv]
       ELSE IF e.op = "reloadcsv" THEN Lengthen(SheetOf(run, e.args.file + 1, run.events[e.args.file + 1].o))
       ELSE <<>>
Returns(rows) == rows # <<>> /\ Meant(rows) /\ RoundTrip(rows)

Header == <<"Order", "Activity", "Condition", "Who", "Subprocess", "Terminated">>
Cells(r) == IF Len(r) # 6 THEN r ELSE <<r[1], r[2], r[3], r[5], r[6]>>
JudgeCsvExport(run, k, d, e) ==
  LET rows == SheetOf(run, k, e.o) IN
  (IF ~ Returns(rows) THEN {}
   ELSE IF e.res # "ok" THEN {<<"C22", "exports">>}
   ELSE V(e.ret.header = Header /\ [j \in DOMAIN e.ret.rows |-> Cells(e.ret.rows[j])] = OutRows(rows), "C22", "same rows"))
  \cup
  (IF "want" \notin DOMAIN e.args THEN {}
   ELSE IF e.res # "ok" THEN {<<"C21", "exports">>}
   ELSE V(e.ret.header = Header, "C21", "header")
        \cup V([j \in DOMAIN e.ret.rows |-> IF Len(e.ret.rows[j]) = 6 THEN e.ret.rows[j][1] ELSE "?"]
               = [j \in DOMAIN e.args.want |-> e.args.want[j][1]], "C21", "one row per element, with its place")
        \cup V([j \in DOMAIN e.ret.rows |-> Cells(e.ret.rows[j])] = e.args.want, "C21", "cells"))
JudgeReloadCsv(run, after, e) ==
  LET src == run.events[e.args.file + 1]
      rows == SheetOf(run, e.args.file + 1, src.o)
  IN IF src.res # "ok" \/ src.op # "csvexport" \/ ~ Returns(rows) THEN {}
     ELSE IF e.res # "ok" THEN {<<"C22", "loads its own export">>}
     ELSE LET l == Lengthen(rows)  nodes == SheetNodes(l)  flows == SheetFlows(l) IN
          V(Plainer(after.nodes) = Plainer(nodes) /\ GateKinds(after.nodes) = GateKinds(nodes), "C22", "same nodes")
          \cup V(CondTable(after.flows) = CondTable(flows), "C22", "same flows")
JudgeCsvRefused(d, e) ==
  IF Cardinality({n \in DOMAIN d.nodes : d.nodes[n].inc = <<>>}) = 1 THEN {}
  ELSE IF e.res # "ok" THEN {<<"C23", "refuses">>}
  ELSE V(e.ret.outcome = "refused", "C23", "raises the library's own error")
       \cup V(e.ret.file = (IF e.args.pre = "yes" THEN "old" ELSE "none"), "C23", "leaves the file alone")

(* -------------------------------- drawings ------------------------------- *)
ShownNodes(a) == BagOf([j \in DOMAIN a.nodes |-> <<a.nodes[j].id, a.nodes[j].name>>])
ShownEdges(a) == BagOf([j \in DOMAIN a.edges |-> <<a.edges[j].src, a.edges[j].tgt, a.edges[j].name>>])
JudgeDot(d, e) ==
  IF e.res # "ok" THEN {<<"C24", "writes a DOT file">>}
  ELSE V(ShownNodes(e.ret) = NamedNodes(d), "C24", "DOT file: every node with its name")
       \cup V(ShownEdges(e.ret) = NamedEdges(d) /\ e.ret.directed = "yes", "C24", "DOT file: every flow between its nodes")
       \cup V(e.ret.other = <<>>, "C24", "DOT file: nothing else")
JudgePng(d, e) ==
  IF e.res # "ok" THEN {<<"C24", "draws a picture">>}
  ELSE V(ShownNodes(e.ret) = NamedNodes(d), "C24", "picture: every node with its label")
       \cup V(\A j \in DOMAIN e.ret.nodes : LET n == e.ret.nodes[j] IN
                 n.id \in DOMAIN d.nodes => <<n.shape, n.style>> = PictureShape(d.nodes[n.id].type), "C24", "picture: shapes")
       \cup V(ShownEdges(e.ret) = NamedEdges(d) /\ e.ret.directed = "yes", "C24", "picture: every flow with its label")
       \cup V(e.ret.other = <<>> /\ e.ret.file = "yes", "C24", "picture: file and nothing else")
JudgeDraw(d, e) ==
  IF e.res # "ok" THEN {<<"C24", "draws on the screen">>}
  ELSE V(BagOf([j \in DOMAIN e.ret.nodes |-> <<e.ret.nodes[j][1], e.ret.nodes[j][3], e.ret.nodes[j][4]>>]) = Markers(d),
         "C24", "screen: every node once at its position")
       \cup V({<<m[1], m[2]>> : m \in SeqSet(e.ret.nodes)} = MarkerKinds(d), "C24", "screen: shapes")
       \cup V(BagOf(e.ret.labels) = Labels(d), "C24", "screen: labels of the nodes")
       \cup V(BagOf(e.ret.edges) = BagOf(SetToSeq({ScreenEdge(d, f) : f \in DOMAIN d.flows})), "C24", "screen: every flow")
       \cup V(BagOf(e.ret.elabels) = BagOf(SetToSeq({ScreenLabel(d, f) : f \in DOMAIN d.flows})), "C24", "screen: labels of the flows")
       \cup V(e.ret.shown = 1, "C24", "screen: shown")

(* ----------------------------- typed elements ---------------------------- *)
Objs(run, k) == IF "objs" \in DOMAIN run.events[k].ret THEN run.events[k].ret.objs ELSE <<>>
JudgeElement(run, k, e) ==
  IF e.res # "ok" THEN {<<"C25", "elements can be made, set and read">>}
  ELSE LET a == e.args  old == Objs(run, k - 1)  new == e.ret.objs
           rest(t) == PartOf(t, DOMAIN t \ {a.n})
       IN V(rest(new) = rest(old), "C25", "other elements unchanged")
          \cup CASE a.op = "emake" ->
                   IF MakeRefused(a.cls, a.src, a.tgt) THEN V(e.ret.outcome = "refused" /\ new = old, "C25", "constructor refuses")
                   ELSE V(e.ret.outcome = "ok" /\ a.n \in DOMAIN new /\ new[a.n] = [cls |-> a.cls, f |-> Made(a.cls, a.src, a.tgt)],
                          "C25", "new element has its defaults")
               [] a.op = "eset" ->
                   LET dom == DomainOf(old[a.n].cls, a.f) IN
                   IF Accepts(dom, a.v) THEN V(e.ret.outcome = "ok", "C25", "accepts a documented value")
                                             \cup V(e.ret.outcome # "ok" \/ (new[a.n].f[a.f] = a.v /\ e.ret.given = "yes"), "C25", "getter returns the value")
                                             \cup V([new[a.n] EXCEPT !.f[a.f] = None] = [old[a.n] EXCEPT !.f[a.f] = None], "C25", "other fields unchanged")
                   ELSE IF Open(dom, a.v) THEN V([new[a.n] EXCEPT !.f[a.f] = None] = [old[a.n] EXCEPT !.f[a.f] = None], "C25", "other fields unchanged")
                   ELSE V(e.ret.outcome = "refused", "C25", "refuses other values with a type or value error")
                        \cup V(new = old, "C25", "refused value leaves all fields as they were")
               [] OTHER -> V([new[a.n] EXCEPT !.f[a.f] = None] = [old[a.n] EXCEPT !.f[a.f] = None], "C25", "other fields unchanged")

(* ------------------------------- one event ------------------------------- *)
JudgeOp(run, k, before, after, e, used) ==
  LET r == Resolve(e.args) IN
  CASE e.op \in NodeOps -> JudgeNode(before, after, e, r, used)
    [] e.op = "flow" -> JudgeFlow(before, after, e, r, used)
    [] e.op = "process" -> JudgeProcess(before, after, e, r, used)
    [] e.op = "new" -> JudgeNew(before, after, e, r, used)
    [] e.op = "queries" -> JudgeQueries(before, e)
    [] e.op = "reads" -> JudgeReads(e)
    [] e.op = "load" -> JudgeLoad(run, k, before, after, e)
    [] e.op = "export" -> JudgeExport(run, k, before, e)
    [] e.op = "reload" -> JudgeReload(run, after, e)
    [] e.op = "nodi" -> JudgeNodi(before, e)
    [] e.op = "layout" -> JudgeLayout(before, after, e)
    [] e.op = "metrics" -> JudgeMetrics(before, e)
    [] e.op = "cross" -> JudgeCross(e)
    [] e.op = "pairs" -> JudgePairs(e)
    [] e.op = "paths" -> JudgePaths(before, e)
    [] e.op = "loadcsv" -> JudgeLoadCsv(run, after, e)
    [] e.op = "csvexport" -> JudgeCsvExport(run, k, before, e)
    [] e.op = "reloadcsv" -> JudgeReloadCsv(run, after, e)
    [] e.op = "csvrefused" -> JudgeCsvRefused(before, e)
    [] e.op = "dot" -> JudgeDot(before, e)
    [] e.op = "png" -> JudgePng(before, e)
    [] e.op = "draw" -> JudgeDraw(before, e)
    [] e.op = "without" -> V(e.res = "ok" /\ e.ret.differ = <<>>, "C03", "later calls behave as without the refused ones")
    [] OTHER -> {}

NoProcs(d) == DOMAIN d.procs = {}
(* who is told when the flow tables disagree after an operation *)
Structural == {"flow", "load", "reload", "loadcsv", "reloadcsv", "graph"} \cup NodeOps

(* two flows with the same source and target are beyond what the library can hold (see KNOWN_FINDINGS.txt) *)
Holds(run, k, e) ==
  CASE e.op = "loadcsv" -> Meant(run.csvs[e.args.csv])
    [] e.op = "reloadcsv" -> Returns(SheetOf(run, e.args.file + 1, run.events[e.args.file + 1].o))
    [] OTHER -> TRUE

JudgeEvent(run, k, used) ==
  LET e == run.events[k]
      prev == run.events[k - 1].post
      st(x) == run.states[x]
      others == (DOMAIN prev) \ {e.o}
      ghosts == (DOMAIN e.post) \ (DOMAIN prev)
      praw == run.events[k - 1].raw
  IN (IF e.broken = "yes" THEN {<<"ANY", "the state of the diagram can be read">>} ELSE {})
     \cup V(\A o \in others : e.post[o] = prev[o] /\ e.raw[o] = praw[o], "C05", "other diagrams unchanged")
     \cup (IF e.op \in ElementOps THEN JudgeElement(run, k, e) ELSE IF e.o = "" THEN {}
           ELSE V(\A g \in ghosts : e.post[g] = prev[e.o] /\ e.raw[g] = praw[e.o], "C05", "diagram handed out before unchanged")
                \cup V(e.op \notin ReadOps \/ (e.post[e.o] = prev[e.o] /\ e.raw[e.o] = praw[e.o]), "C06", "reading changes nothing")
                \cup V(e.op \notin NodeOps \cup {"flow"} \/ ~ Refused(st(prev[e.o]), Resolve(e.args)) \/ e.raw[e.o] = praw[e.o],
                       "C03", "refused call changes nothing at all")
                \cup V(e.op \notin Structural \/ e.post[e.o] = prev[e.o] \/ e.res # "ok" \/ ~ Holds(run, k, e) \/ FlowsAgree(st(e.post[e.o])),
                       "C02", "flows and nodes agree")
                \cup JudgeOp(run, k, st(prev[e.o]), st(e.post[e.o]), e, used))
=============================================================================
