------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The state machine of a program that uses bpmn-python: several diagram   *)
(* objects, building calls (accepted and refused), new diagrams, loading,  *)
(* layout, export and all kinds of reads, in any order.                    *)
(*                                                                         *)
(* objs : object name -> diagram (record of module Bpmn)                   *)
(* hist : the operations done so far; operation k makes the id "@k" where  *)
(*        the library generates one.                                       *)
(* With RANDOM the machine draws its next operation (simulation); without  *)
(* it enumerates a small set of operations (exhaustive checking).          *)
(***************************************************************************)
EXTENDS Bpmn, Json

CONSTANTS RANDOM, OBJS, MAXLEN, KINDS, DOCS, CAP  \* CAP: largest number of nodes of a diagram

VARIABLES objs, hist
vars == <<objs, hist>>

Pick(S) == RandomElement(S)
AUTO(k) == "@" \o ToString(k)

Texts  == {"", "A", "B b", "~1", "~2", "~3", "~4", "~5", "~6", "~7", "~9", "~10", "~11", "n1"}
BOOLT  == {"true", "false", DFLT}
Dirs   == {"Unspecified", "Converging", "Diverging", "Mixed", DFLT, "Unspecified", "Sideways", "", "mixed"}
PTypes == {"None", "Private", "Public", DFLT}

(* owners a node or flow may have: processes, sub-processes, or an unknown one *)
Owners(d) == DOMAIN d.procs \cup {n \in DOMAIN d.nodes : d.nodes[n].type = "subProcess"}
Usable(d) == DOMAIN d.procs # {}
Pairs(d)  == {<<s, t>> \in (DOMAIN d.nodes) \X (DOMAIN d.nodes) :
                ~ \E f \in DOMAIN d.flows : d.flows[f].src = s /\ d.flows[f].tgt = t}
(* flows of one container only: those can be exported *)
Inner(d)  == {p \in Pairs(d) : d.nodes[p[1]].process = d.nodes[p[2]].process}

(* ---------------------------- random operations -------------------------- *)
(* ids given by hand: new ones, and some that other objects and refused calls use, too *)
Names == {"m1", "m2", "m3", "m4", "m5", "nowhere"}
Unused(d) == Names \ DOMAIN d.nodes
(* those of the refused calls on this object come first *)
Again(o, d) == {hist[j].id : j \in {i \in 1..Len(hist) : hist[i].o = o /\ hist[i].op \in NodeOps}} \cap Unused(d)
NodeId(o, d, k) ==
  LET w == Pick(1..9) IN
  CASE w <= 2 -> DFLT
    [] w = 3 -> "@absent"
    [] w = 4 -> "n" \o ToString(k)
    [] w = 5 -> Pick({"Node_" \o ToString(k) \o "-x.y", ToString(k)})
    [] w = 6 /\ Again(o, d) # {} -> Pick(Again(o, d))
    [] Unused(d) # {} -> Pick(Unused(d))
    [] OTHER -> DFLT

RandOp(o, d, k, kind) ==
  CASE kind = "new" -> [op |-> "new", o |-> o, name |-> Pick(Texts \cup {DFLT})]
    [] kind = "process" ->
         IF Pick(1..3) = 1 THEN [op |-> "process", o |-> o, name |-> DFLT, closed |-> DFLT, executable |-> DFLT, ptype |-> DFLT]
                           ELSE [op |-> "process", o |-> o, name |-> Pick(Texts \cup {DFLT}), closed |-> Pick(BOOLT),
                            executable |-> Pick(BOOLT), ptype |-> Pick(PTypes)]
    [] kind = "task" -> [op |-> "task", o |-> o, p |-> Pick(Owners(d)), name |-> Pick(Texts \cup {DFLT}), id |-> NodeId(o, d, k)]
    [] kind = "stray" -> [op |-> "task", o |-> o, p |-> "elsewhere", name |-> Pick(Texts \cup {DFLT}), id |-> NodeId(o, d, k)]   \* owned by no process
    [] kind = "subprocess" -> [op |-> "subprocess", o |-> o, p |-> Pick(Owners(d)), name |-> Pick(Texts),
                               expanded |-> Pick(BOOLT), triggered |-> Pick(BOOLT), id |-> NodeId(o, d, k)]
    [] kind = "start" -> [op |-> "start", o |-> o, p |-> Pick(Owners(d)), name |-> Pick(Texts \cup {DFLT}),
                          def |-> Pick(StartDefs \cup {DFLT, "@absent"}), multiple |-> Pick(BOOLT), interrupting |-> Pick(BOOLT),
                          id |-> NodeId(o, d, k)]
    [] kind = "end" -> [op |-> "end", o |-> o, p |-> Pick(Owners(d)), name |-> Pick(Texts \cup {DFLT}),
                        def |-> Pick(EndDefs \cup {DFLT, "@absent"}), id |-> NodeId(o, d, k)]
    [] kind \in {"exclusive", "inclusive"} ->
                       [op |-> kind, o |-> o, p |-> Pick(Owners(d)), name |-> Pick(Texts \cup {DFLT}),
                        dir |-> Pick(Dirs), dflt |-> Pick({DFLT, "@absent"} \cup DOMAIN d.flows \cup {"someflow"}), id |-> NodeId(o, d, k)]
    [] kind = "parallel" -> [op |-> "parallel", o |-> o, p |-> Pick(Owners(d)), name |-> Pick(Texts \cup {DFLT}),
                             dir |-> Pick(Dirs), id |-> NodeId(o, d, k)]
    [] kind = "flow" -> LET good == IF Inner(d) # {} THEN Inner(d) ELSE Pairs(d)
                            pr == Pick(good)
                        IN [op |-> "flow", o |-> o, p |-> d.nodes[pr[1]].process, src |-> pr[1], tgt |-> pr[2],
                            name |-> Pick(Texts \cup {DFLT})]
    [] kind = "crossflow" -> LET pr == Pick(Pairs(d))     \* between containers, with any owner
                             IN [op |-> "flow", o |-> o, p |-> Pick(Owners(d)), src |-> pr[1], tgt |-> pr[2], name |-> Pick(Texts \cup {DFLT})]
    [] kind = "badflow" -> LET no == Pick(Unused(d) \cup {"nowhere else"})
                               pr == Pick({<<no, no>>, <<no, "nowhere at all">>} \cup {<<no, n>> : n \in DOMAIN d.nodes}
                                          \cup {<<n, no>> : n \in DOMAIN d.nodes} \cup
                                          {<<n, p>> : n \in DOMAIN d.nodes, p \in DOMAIN d.procs})
                           IN [op |-> "flow", o |-> o, p |-> Pick(Owners(d)), src |-> pr[1], tgt |-> pr[2],
                               name |-> Pick(Texts \cup {DFLT})]
    [] kind = "queries" -> [op |-> "queries", o |-> o]
    [] kind = "reads" -> [op |-> "reads", o |-> o, which |-> Pick({<<"counts", "paths", "cross">>, <<"xml", "nodi">>,
                                <<"csv", "dot">>, <<"nodi", "xml", "csv">>, <<"png", "counts">>, <<"paths", "dot">>})]
    [] kind = "draw" -> [op |-> "draw", o |-> o]
    [] kind = "layout" -> [op |-> "layout", o |-> o]
    [] kind = "load" -> [op |-> "load", o |-> o, doc |-> Pick(1..DOCS), style |-> [prefix |-> ""]]
    [] kind = "export" -> [op |-> "export", o |-> o]
    [] kind = "nodi" -> [op |-> "nodi", o |-> o]
    [] kind = "reload" -> LET fs == {j \in 1..Len(hist) : hist[j].op = "export"}
                          IN [op |-> "reload", o |-> o, file |-> Pick(fs)]
    [] kind = "metrics" -> [op |-> "metrics", o |-> o]
    [] kind = "paths" -> [op |-> "paths", o |-> o]
    [] kind = "cross" -> [op |-> "cross", o |-> o]
    [] kind = "dot" -> [op |-> "dot", o |-> o]
    [] kind = "png" -> [op |-> "png", o |-> o]
    [] kind = "csvrefused" -> [op |-> "csvrefused", o |-> o, pre |-> Pick({"yes", "no"})]

(* a diagram that came from a document of the pool: its content is not tracked here *)
LOADED == [EmptyDiagram EXCEPT !.diag = [id |-> "@loaded", name |-> ""]]
Tracked(d) == d # LOADED
Blank(d) == Tracked(d) /\ DOMAIN d.procs = {} /\ DOMAIN d.nodes = {}
InOneContainer(d) == \A f \in DOMAIN d.flows : d.nodes[d.flows[f].src].process = d.nodes[d.flows[f].tgt].process

(* a diagram with nodes that no process owns cannot be exported *)
Stray(d) == \E n \in DOMAIN d.nodes : d.nodes[n].process = "elsewhere"
Able(d, kind) ==
  CASE kind = "stray" -> Tracked(d) /\ DOMAIN d.procs = {} /\ Cardinality(DOMAIN d.nodes) < 3
    [] Stray(d) -> kind \in {"new", "queries", "metrics"}
    [] kind \in {"new", "queries", "reads"} -> TRUE
    [] kind = "load" -> Blank(d) /\ DOCS > 0
    [] kind = "reload" -> Blank(d) /\ \E j \in 1..Len(hist) : hist[j].op = "export"
    [] kind = "export" -> ~ Tracked(d) \/ (Usable(d) /\ d.diag.id # ABSENT)
    [] kind = "nodi" -> ~ Tracked(d) \/ Usable(d)
    [] ~ Tracked(d) -> kind \in {"metrics"}
    [] kind = "process" -> Cardinality(DOMAIN d.procs) < 2 + CAP \div 9
    [] kind \in NodeOps -> Usable(d) /\ Cardinality(DOMAIN d.nodes) < CAP
    [] kind = "badflow" -> Usable(d)
    [] kind = "flow" -> Pairs(d) # {} /\ Inner(d) # {} /\ Cardinality(DOMAIN d.flows) < CAP + CAP \div 3
    [] kind = "crossflow" -> Pairs(d) # {} /\ Cardinality(DOMAIN d.flows) < CAP + CAP \div 3
    [] kind \in {"layout", "metrics", "paths", "cross", "dot", "png", "draw"} -> DOMAIN d.nodes # {}
    [] kind = "csvrefused" -> Cardinality({n \in DOMAIN d.nodes : d.nodes[n].inc = <<>>}) # 1
    [] OTHER -> FALSE

(* ---------------------- enumerated operations (small) -------------------- *)
EnumOps(o, d, k) ==
  LET P == IF Owners(d) = {} THEN {} ELSE {CHOOSE p \in Owners(d) : TRUE} IN
  {[op |-> "new", o |-> o, name |-> "A"]}
  \cup {[op |-> "process", o |-> o, name |-> "A", closed |-> "true", executable |-> DFLT, ptype |-> "Public"]}
  \cup {[op |-> "task", o |-> o, p |-> p, name |-> "A", id |-> i] : p \in P, i \in {DFLT, "n" \o ToString(k)}}
  \cup {[op |-> "subprocess", o |-> o, p |-> p, name |-> "A", expanded |-> "true", triggered |-> DFLT, id |-> DFLT] : p \in P}
  \cup {[op |-> "start", o |-> o, p |-> p, name |-> DFLT, def |-> "timer", multiple |-> DFLT, interrupting |-> "false", id |-> DFLT] : p \in P}
  \cup {[op |-> "end", o |-> o, p |-> p, name |-> DFLT, def |-> "error", id |-> DFLT] : p \in P}
  \cup {[op |-> g, o |-> o, p |-> p, name |-> DFLT, dir |-> dr, dflt |-> DFLT, id |-> DFLT]
          : p \in P, g \in {"exclusive", "inclusive"}, dr \in {"Mixed", "Sideways"}}
  \cup {[op |-> "parallel", o |-> o, p |-> p, name |-> DFLT, dir |-> dr, id |-> DFLT] : p \in P, dr \in {DFLT, "Sideways"}}
  \cup {[op |-> "flow", o |-> o, p |-> p, src |-> pr[1], tgt |-> pr[2], name |-> "A"] : p \in P, pr \in Pairs(d)}
  \cup {[op |-> "flow", o |-> o, p |-> p, src |-> s, tgt |-> "nowhere", name |-> "A"] : p \in P, s \in {"nowhere"} \cup DOMAIN d.nodes}
  \cup {[op |-> "flow", o |-> o, p |-> p, src |-> "nowhere", tgt |-> s, name |-> "A"] : p \in P, s \in DOMAIN d.nodes}

(* --------------------------------- effects ------------------------------- *)
Effect(d, op, k) ==
  LET r == Resolve(op) IN
  CASE op.op = "new" -> NewDiagram(AUTO(k), r.name)
    [] op.op \in {"load"} -> LOADED
    [] op.op = "reload" -> LOADED
    [] ~ Tracked(d) -> d
    [] op.op = "process" -> AddProcess(d, AUTO(k), AUTO(k) \o "p", r)
    [] op.op \in NodeOps -> IF Refused(d, r) THEN d
                            ELSE LET id == IF r.id = ABSENT THEN AUTO(k) ELSE r.id
                                 IN AddNode(d, id, BuiltNode(r, id, AUTO(k) \o "d"))
    [] op.op = "flow" -> IF Refused(d, r) THEN d ELSE AddFlow(d, AUTO(k), r)
    [] OTHER -> d

Init == objs = [o \in OBJS |-> EmptyDiagram] /\ hist = <<>>

Do(op) == /\ objs' = [objs EXCEPT ![op.o] = Effect(@, op, Len(hist) + 1)]
          /\ hist' = Append(hist, op)

Next ==
  /\ Len(hist) < MAXLEN
  /\ IF RANDOM
     THEN \E o \in {Pick(OBJS)} :
          \E kind \in {IF objs[o] = EmptyDiagram THEN Pick({x \in {"new", "load", "reload", "new"} : Able(objs[o], x)})
                       ELSE IF Tracked(objs[o]) /\ ~ Usable(objs[o]) /\ ~ Stray(objs[o])
                       THEN Pick({x \in {"process", "load", "reload"} : Able(objs[o], x)} \cup {IF Pick(1..4) = 1 THEN "new" ELSE "process"}
                                 \cup ({"stray"} \cap {KINDS[i] : i \in DOMAIN KINDS}))
                       ELSE KINDS[Pick({i \in DOMAIN KINDS : Able(objs[o], KINDS[i])})]} :
          \E op \in {RandOp(o, objs[o], Len(hist) + 1, kind)} : Do(op)
     ELSE \E o \in OBJS : \E op \in EnumOps(o, objs[o], Len(hist) + 1) : Do(op)

Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
Consistent == \A o \in OBJS : Tracked(objs[o]) => FlowsAgree(objs[o])                              \* C02
LastOp == hist'[Len(hist')]
RefusedUntouched ==                                                                                \* C03
  [][LET op == LastOp IN (Tracked(objs[op.o]) /\ op.op \in NodeOps \cup {"flow"} /\ Refused(objs[op.o], Resolve(op)))
       => objs' = objs]_vars
OthersUntouched == [][\A o \in OBJS : o # LastOp.o => objs'[o] = objs[o]]_vars                       \* C05
NewIsEmpty == [][LastOp.op = "new" => /\ DOMAIN objs'[LastOp.o].nodes = {} /\ DOMAIN objs'[LastOp.o].flows = {}
                                    /\ DOMAIN objs'[LastOp.o].procs = {} ]_vars                       \* C05
OneMore ==                                                                                          \* C01
  [][LET op == LastOp IN (Tracked(objs[op.o]) /\ op.op \in NodeOps /\ ~ Refused(objs[op.o], Resolve(op)))
       => /\ Cardinality(DOMAIN objs'[op.o].nodes) = Cardinality(DOMAIN objs[op.o].nodes) + 1
          /\ \A n \in DOMAIN objs[op.o].nodes : objs'[op.o].nodes[n] = objs[op.o].nodes[n]]_vars

(* prints the history of every complete behaviour *)
(* with "without" among the kinds it ends with the question what would be different without the refused calls *)
Asked == IF "without" \in {KINDS[i] : i \in DOMAIN KINDS} THEN <<[op |-> "without", o |-> CHOOSE o \in OBJS : TRUE]>> ELSE <<>>
Emit == Len(hist) = MAXLEN => PrintT("SCN " \o ToJson(hist \o Asked))
=============================================================================
