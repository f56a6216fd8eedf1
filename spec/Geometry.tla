------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Crossings of segments with integer end points.  A segment is <<p, q>>,  *)
(* p and q are <<x, y>>; it may be a single point.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Cross3(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Between(a, b, c) == Min2(a, b) <= c /\ c <= Max2(a, b)

OnSegment(s, r) == /\ Cross3(s[1], s[2], r) = 0
                   /\ Between(s[1][1], s[2][1], r[1]) /\ Between(s[1][2], s[2][2], r[2])

(* Have the segments a point in common?  Each end on the other segment, or *)
(* the ends of each lie strictly on both sides of the other.               *)
Meet(s, t) ==
  \/ OnSegment(s, t[1]) \/ OnSegment(s, t[2]) \/ OnSegment(t, s[1]) \/ OnSegment(t, s[2])
  \/ /\ Sgn(Cross3(s[1], s[2], t[1])) * Sgn(Cross3(s[1], s[2], t[2])) = -1
     /\ Sgn(Cross3(t[1], t[2], s[1])) * Sgn(Cross3(t[1], t[2], s[2])) = -1

ShareEnd(s, t) == {s[1], s[2]} \cap {t[1], t[2]} # {}
Crosses(s, t) == ~ ShareEnd(s, t) /\ Meet(s, t)

(* The definition by parameters: s[1] + a (s[2]-s[1]) = t[1] + b (t[2]-t[1]) *)
(* with a, b in [0,1]; a and b are quotients over the determinant.           *)
Unit(num, den) == IF den > 0 THEN 0 <= num /\ num <= den ELSE den <= num /\ num <= 0
MeetByParameters(s, t) ==
  LET ux == s[2][1] - s[1][1]  uy == s[2][2] - s[1][2]
      vx == t[2][1] - t[1][1]  vy == t[2][2] - t[1][2]
      wx == t[1][1] - s[1][1]  wy == t[1][2] - s[1][2]
      den == ux * vy - uy * vx
  IN IF den # 0
     THEN Unit(wx * vy - wy * vx, den) /\ Unit(wx * uy - wy * ux, den)
     ELSE IF wx * uy - wy * ux # 0 \/ wx * vy - wy * vx # 0 THEN FALSE     \* parallel, not on one line
     ELSE \* on one line (or single points): the intervals overlap in both coordinates
          IF <<ux, uy>> = <<0, 0>> /\ <<vx, vy>> = <<0, 0>> THEN s[1] = t[1]
          ELSE /\ Max2(Min2(s[1][1], s[2][1]), Min2(t[1][1], t[2][1])) <= Min2(Max2(s[1][1], s[2][1]), Max2(t[1][1], t[2][1]))
               /\ Max2(Min2(s[1][2], s[2][2]), Min2(t[1][2], t[2][2])) <= Min2(Max2(s[1][2], s[2][2]), Max2(t[1][2], t[2][2]))

SegmentsOf(route) == [i \in 1..Len(route) - 1 |-> <<route[i], route[i+1]>>]
RECURSIVE Concat(_)
Concat(rs) == IF rs = <<>> THEN <<>> ELSE SegmentsOf(Head(rs)) \o Concat(Tail(rs))
(* number of segments and of crossing pairs of a sequence of routes *)
SegmentCount(rs) == Len(Concat(rs))
CrossingCount(rs) == LET s == Concat(rs) IN
  Cardinality({<<i, j>> \in (1..Len(s)) \X (1..Len(s)) : i < j /\ Crosses(s[i], s[j])})
=============================================================================
