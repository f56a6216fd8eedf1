-------------------------------- MODULE Draw ---------------------------------
(***************************************************************************)
(* What the drawings of a diagram have to show.                            *)
(***************************************************************************)
EXTENDS Bpmn

Shown(v) == IF v = ABSENT THEN "" ELSE v     \* an element without a name has no label

(* the picture: kind of node -> shape and style ("" is what Graphviz draws by itself) *)
PictureShape(t) == CASE t = "task" -> <<"box", "rounded">>
                     [] t = "exclusiveGateway" -> <<"diamond", "">>
                     [] OTHER -> <<"", "">>
NamedNodes(d) == BagOf(SetToSeq({<<n, Shown(d.nodes[n].name)>> : n \in DOMAIN d.nodes}))
NamedEdges(d) == [x \in {<<d.flows[f].src, d.flows[f].tgt, Shown(d.flows[f].name)>> : f \in DOMAIN d.flows} |->
                    Cardinality({f \in DOMAIN d.flows : x = <<d.flows[f].src, d.flows[f].tgt, Shown(d.flows[f].name)>>})]

(* the drawing on the screen: marker of each kind; the other kinds have a label only *)
Marker(t) == CASE t \in {"task", "subProcess"} -> "s"
               [] t \in {"complexGateway", "inclusiveGateway", "exclusiveGateway", "parallelGateway"} -> "d"
               [] t \in {"eventBasedGateway"} \cup EventTypes -> "o"
               [] OTHER -> "none"
Marked(d) == {n \in DOMAIN d.nodes : Marker(d.nodes[n].type) # "none"}
Markers(d) == BagOf(SetToSeq({<<n, Short(d.nodes[n].x), Short(d.nodes[n].y)>> : n \in Marked(d)}))
MarkerKinds(d) == {<<n, Marker(d.nodes[n].type)>> : n \in Marked(d)}
Labels(d) == BagOf(SetToSeq({<<n, Shown(d.nodes[n].name), Short(d.nodes[n].x), Short(d.nodes[n].y)>> : n \in DOMAIN d.nodes}))
Spot(d, n) == <<Short(d.nodes[n].x), Short(d.nodes[n].y)>>
ScreenEdge(d, f) == <<d.flows[f].src, d.flows[f].tgt, Spot(d, d.flows[f].src) \o Spot(d, d.flows[f].tgt)>>
ScreenLabel(d, f) == <<d.flows[f].src, d.flows[f].tgt, Shown(d.flows[f].name), Spot(d, d.flows[f].src) \o Spot(d, d.flows[f].tgt)>>
=============================================================================
