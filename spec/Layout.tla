------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* What the automatic layout has to give.  pos : node -> <<x, y>> and      *)
(* routes : flow -> sequence of <<x, y>> are the integer coordinates after *)
(* layout; BAD marks a coordinate that is not an integer.                  *)
(***************************************************************************)
EXTENDS Bpmn

BAD == -2000000000
COLW == 150
ROWH == 100
MARGIN == 50

Abs(z) == IF z < 0 THEN -z ELSE z
Grid(v, step) == v # BAD /\ Abs(v - MARGIN) % step = 0
OnGrid(p) == Grid(p[1], COLW) /\ Grid(p[2], ROWH)

AllPlaced(d, pos) == DOMAIN pos = DOMAIN d.nodes /\ \A n \in DOMAIN pos : OnGrid(pos[n])
OwnPlace(pos) == \A m, n \in DOMAIN pos : m # n => pos[m] # pos[n]

(* single incoming flows, and the loops nobody can enter from outside *)
SingleIn(d, n) == Cardinality({f \in DOMAIN d.flows : d.flows[f].tgt = n}) = 1
Pred(d, n) == d.flows[CHOOSE f \in DOMAIN d.flows : d.flows[f].tgt = n].src
RECURSIVE Back(_, _, _)
Back(d, n, seen) ==   \* nodes met when following single incoming flows backwards from n
  IF n \in seen \/ ~ SingleIn(d, n) THEN seen ELSE Back(d, Pred(d, n), seen \cup {n})
ClosedLoop(d, n) ==   \* the loop of single-entry nodes through n, or {}
  IF ~ SingleIn(d, n) THEN {}
  ELSE LET b == Back(d, Pred(d, n), {}) IN IF n \in b THEN b ELSE {}
NextColumn(d, pos, n) == pos[n][1] = pos[Pred(d, n)][1] + COLW
RightOfPredecessor(d, pos) ==
  \A n \in DOMAIN d.nodes : SingleIn(d, n) =>
     LET c == ClosedLoop(d, n) IN
     IF c = {} THEN NextColumn(d, pos, n)
     ELSE Cardinality({m \in c : ~ NextColumn(d, pos, m)}) <= 1

(* where the process begins, and where its parts meet *)
Preds(d, n) == {d.flows[f].src : f \in {g \in DOMAIN d.flows : d.flows[g].tgt = n}}
Leftmost(pos, n) == \A m \in DOMAIN pos : pos[n][1] <= pos[m][1]
EntriesLeftmost(d, pos) == \A n \in DOMAIN d.nodes : Preds(d, n) = {} => Leftmost(pos, n)
RECURSIVE Upstream(_, _)
Upstream(d, S) == LET T == S \cup UNION {Preds(d, m) : m \in S} IN IF T = S THEN S ELSE Upstream(d, T)
BehindLoop(d, n) == \E m \in Upstream(d, {n}) : m \in Upstream(d, Preds(d, m))
RightOfSome(d, pos) ==
  \A n \in DOMAIN d.nodes : Preds(d, n) # {} =>
     \/ \E m \in Preds(d, n) : pos[n][1] = pos[m][1] + COLW
     \/ Leftmost(pos, n) /\ BehindLoop(d, n)

(* ------------------------------- routes ---------------------------------- *)
IsRouteGateway(d, n) == d.nodes[n].type \in RouteGateways
HasGateway(d, f) == IsRouteGateway(d, d.flows[f].src) \/ IsRouteGateway(d, d.flows[f].tgt)
Centre(p) == <<p[1] + 50, p[2] + 50>>
LeftBorder(p) == <<p[1], p[2] + 50>>
TopBorder(p) == <<p[1] + 50, p[2]>>
(* a flow that leaves a gateway first runs in the gateway's column, one that enters a gateway of another row comes from
   above or below in the gateway's column, all others run straight *)
Route(d, pos, f) ==
  LET s == pos[d.flows[f].src]  t == pos[d.flows[f].tgt] IN
  CASE IsRouteGateway(d, d.flows[f].src) -> <<Centre(s), <<s[1] + 50, t[2] + 50>>, LeftBorder(t)>>
    [] s[2] # t[2] /\ IsRouteGateway(d, d.flows[f].tgt) -> <<Centre(s), <<t[1] + 50, s[2] + 50>>, TopBorder(t)>>
    [] OTHER -> <<Centre(s), LeftBorder(t)>>
RouteStarts(d, pos, routes) == \A f \in DOMAIN d.flows : routes[f][1] = Centre(pos[d.flows[f].src])
RouteEnds(d, pos, routes) ==
  \A f \in DOMAIN d.flows : LET r == Route(d, pos, f) IN routes[f][Len(routes[f])] = r[Len(r)]
(* a bend that coincides with its neighbour is none *)
RECURSIVE Bare(_)
Bare(r) == IF Len(r) < 2 THEN r ELSE IF r[1] = r[2] THEN Bare(Tail(r)) ELSE <<r[1]>> \o Bare(Tail(r))
RouteBends(d, pos, routes) == \A f \in DOMAIN d.flows : Bare(routes[f]) = Bare(Route(d, pos, f))
RouteLengths(d, routes) == DOMAIN routes = DOMAIN d.flows /\ \A f \in DOMAIN d.flows : Len(routes[f]) >= 2

(* everything but positions and routes *)
(* nodes that had no size may get one *)
Sized(before, after) ==
  [after EXCEPT !.nodes = [n \in DOMAIN @ |-> IF n \in DOMAIN before.nodes /\ before.nodes[n].w = ABSENT
                                               THEN [@[n] EXCEPT !.w = ABSENT, !.h = ABSENT] ELSE @[n]]]
Ungeo(d) == [d EXCEPT !.nodes = NoGeoNodes(@), !.flows = NoGeoFlows(@)]
=============================================================================
