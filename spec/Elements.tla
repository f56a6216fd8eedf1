------------------------------ MODULE Elements -------------------------------
(***************************************************************************)
(* The typed element classes (bpmn_python/graph/classes): class hierarchy, *)
(* fields with their documented domains and defaults, and what a setter    *)
(* does with a value.                                                      *)
(*                                                                         *)
(* A value is a sequence of words: <<"atom", w>>, or a container <<c>> \o  *)
(* words with c one of list, tuple, set, dict.  A word is none, s:TEXT,    *)
(* b:true, b:false, i:N, f:N, y:TEXT (bytes) or o:CLASS (a new object).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Parent ==
  [BaseElement |-> "", ConditionExpression |-> "", FlowElement |-> "BaseElement", FlowNode |-> "FlowElement",
   LaneSet |-> "BaseElement", Lane |-> "BaseElement", MessageFlow |-> "BaseElement", Participant |-> "BaseElement",
   SequenceFlow |-> "FlowElement", Activity |-> "FlowNode", SubProcess |-> "Activity", Task |-> "Activity",
   Event |-> "FlowNode", CatchEvent |-> "Event", ThrowEvent |-> "Event", EndEvent |-> "ThrowEvent",
   IntermediateThrowEvent |-> "ThrowEvent", IntermediateCatchEvent |-> "CatchEvent", StartEvent |-> "CatchEvent",
   Gateway |-> "FlowNode", ExclusiveGateway |-> "Gateway", InclusiveGateway |-> "Gateway", ParallelGateway |-> "Gateway",
   RootElement |-> "BaseElement", CallableElement |-> "RootElement", EventDefinition |-> "RootElement",
   Process |-> "CallableElement"]
Classes == DOMAIN Parent
ElementOps == {"emake", "eset", "eappend"}

(* fields of each class itself: name -> <<domain, default>> *)
None == <<"atom", "none">>
False == <<"atom", "b:false">>
NoItems == <<"list">>
Own(c) ==
  CASE c = "BaseElement" -> [id |-> <<"optstr", None>>]
    [] c = "ConditionExpression" -> [condition |-> <<"str", None>>]
    [] c = "FlowElement" -> [name |-> <<"optstr", None>>]
    [] c = "FlowNode" -> [incoming |-> <<"strs", NoItems>>, outgoing |-> <<"strs", NoItems>>]
    [] c = "LaneSet" -> [name |-> <<"optstr", None>>, lane_list |-> <<"Lanes", NoItems>>]
    [] c = "Lane" -> [name |-> <<"optstr", None>>, flow_node_ref_list |-> <<"strs", NoItems>>, child_lane_set |-> <<"LaneSet", None>>]
    [] c = "MessageFlow" -> [name |-> <<"optstr", None>>, source_ref |-> <<"str", None>>, target_ref |-> <<"str", None>>,
                             message_ref |-> <<"optstr", None>>]
    [] c = "Participant" -> [name |-> <<"optstr", None>>, process_ref |-> <<"optstr", None>>]
    [] c = "SequenceFlow" -> [source_ref |-> <<"str", None>>, target_ref |-> <<"str", None>>,
                              is_immediate |-> <<"maybebool", None>>, condition_expression |-> <<"optcond", None>>]
    [] c = "Activity" -> [default |-> <<"optstr", None>>]
    [] c = "SubProcess" -> [triggered_by_event |-> <<"bool", False>>, lane_set_list |-> <<"LaneSets", NoItems>>,
                            flow_element_list |-> <<"FlowElements", NoItems>>]
    [] c = "CatchEvent" -> [parallel_multiple |-> <<"bool", False>>, event_definition_list |-> <<"EventDefinitions", NoItems>>]
    [] c = "ThrowEvent" -> [event_definition_list |-> <<"EventDefinitions", NoItems>>]
    [] c = "Gateway" -> [gateway_direction |-> <<"dir", <<"atom", "s:Unspecified">>>>]
    [] c \in {"ExclusiveGateway", "InclusiveGateway"} -> [default |-> <<"optstr", None>>]
    [] c = "CallableElement" -> [name |-> <<"optstr", None>>]
    [] c = "Process" -> [process_type |-> <<"ptype", <<"atom", "s:None">>>>, is_closed |-> <<"bool", False>>,
                         is_executable |-> <<"bool", False>>, lane_set_list |-> <<"LaneSets", NoItems>>,
                         flow_element_list |-> <<"FlowElements", NoItems>>]
    [] OTHER -> <<>>
RECURSIVE FieldsOf(_)
FieldsOf(c) == IF c = "" THEN <<>> ELSE Own(c) @@ FieldsOf(Parent[c])
RECURSIVE IsA(_, _)
IsA(c, super) == c # "" /\ (c = super \/ IsA(Parent[c], super))

(* ------------------------------- documented ------------------------------ *)
IsStr(w) == Len(w) >= 2 /\ SubSeq(w, 1, 2) = "s:"
IsBool(w) == w \in {"b:true", "b:false"}
IsObj(w, c) == \E k \in Classes : w = "o:" \o k /\ IsA(k, c)
ListOf(v, ok(_)) == v[1] = "list" /\ \A i \in 2..Len(v) : ok(v[i])
Atom(v, ok(_)) == v[1] = "atom" /\ ok(v[2])

(* the words for which the documentation of a field says neither yes nor no *)
Open(dom, v) == dom \in {"maybebool", "LaneSet"} /\ v = None
Accepts(dom, v) ==
  CASE dom = "optstr" -> v = None \/ Atom(v, IsStr)
    [] dom = "str" -> Atom(v, IsStr)
    [] dom \in {"bool", "maybebool"} -> Atom(v, IsBool)
    [] dom = "strs" -> ListOf(v, IsStr)
    [] dom = "dir" -> v \in {<<"atom", "s:" \o t>> : t \in {"Unspecified", "Converging", "Diverging", "Mixed"}}
    [] dom = "ptype" -> v \in {<<"atom", "s:" \o t>> : t \in {"None", "Public", "Private"}}
    [] dom = "Lanes" -> ListOf(v, LAMBDA w : IsObj(w, "Lane"))
    [] dom = "LaneSets" -> ListOf(v, LAMBDA w : IsObj(w, "LaneSet"))
    [] dom = "FlowElements" -> ListOf(v, LAMBDA w : IsObj(w, "FlowElement"))
    [] dom = "EventDefinitions" -> ListOf(v, LAMBDA w : IsObj(w, "EventDefinition"))
    [] dom = "LaneSet" -> Atom(v, LAMBDA w : IsObj(w, "LaneSet"))
    [] dom = "optcond" -> v = None \/ Atom(v, LAMBDA w : IsObj(w, "ConditionExpression"))
IsList(dom) == dom \in {"strs", "Lanes", "LaneSets", "FlowElements", "EventDefinitions"}

(* ------------------------------ constructors ----------------------------- *)
NeedsEnds(c) == IsA(c, "SequenceFlow") \/ IsA(c, "MessageFlow")
MakeRefused(c, src, tgt) == NeedsEnds(c) /\ ~ (Accepts("str", src) /\ Accepts("str", tgt))
Made(c, src, tgt) == [f \in DOMAIN FieldsOf(c) |-> CASE NeedsEnds(c) /\ f = "source_ref" -> src
                                                     [] NeedsEnds(c) /\ f = "target_ref" -> tgt
                                                     [] OTHER -> FieldsOf(c)[f][2]]
DomainOf(c, f) == FieldsOf(c)[f][1]

(* --------------------------------- values -------------------------------- *)
Words == {"none", "s:", "s:abc", "s:Mixed", "s:Converging", "s:Diverging", "s:Unspecified", "s:mixed", "s:None", "s:Public", "s:Private", "s:public",
          "s:True", "s:false", "b:true", "b:false", "i:0", "i:1", "f:1.5", "y:abc"} \cup {"o:" \o c : c \in Classes}
Values == {<<"atom", w>> : w \in Words} \cup {<<"list">>, <<"tuple">>, <<"set">>, <<"dict">>}
          \cup {<<"list", w>> : w \in Words} \cup {<<"tuple", "s:abc">>, <<"set", "s:abc">>, <<"dict", "s:abc">>}
          \cup UNION {{<<"list", w, "s:abc">>, <<"list", "s:abc", w>>} : w \in {"none", "i:1", "s:z", "y:abc", "o:Task"}}
          \cup {<<"list", "s:abc", "s:d", "i:0">>, <<"list", "s:a", "s:a">>, <<"list", "o:Lane", "o:Lane">>, <<"list", "o:Lane", "o:LaneSet">>,
                <<"list", "o:Lane", "none">>, <<"list", "o:LaneSet", "o:LaneSet">>, <<"list", "o:LaneSet", "o:Lane">>, <<"list", "o:LaneSet", "s:x">>,
                <<"list", "o:Task", "o:SequenceFlow", "o:EndEvent">>, <<"list", "o:Task", "o:MessageFlow">>, <<"list", "o:Task", "o:Process">>,
                <<"list", "o:ParallelGateway", "none">>, <<"list", "o:EventDefinition", "o:EventDefinition">>, <<"list", "o:EventDefinition", "o:RootElement">>,
                <<"list", "o:EventDefinition", "o:EndEvent">>, <<"tuple", "o:Lane">>, <<"tuple", "o:LaneSet">>, <<"tuple", "o:EventDefinition">>, <<"tuple", "o:Task">>}
=============================================================================
