------------------------------ MODULE GenPairs -------------------------------
(***************************************************************************)
(* Every pair of segments between points of a G x G grid, single points    *)
(* included: one behaviour per first segment.  The two definitions of      *)
(* meeting in module Geometry are compared on all of them.                 *)
(***************************************************************************)
EXTENDS Geometry, TLC, SequencesExt, Json

CONSTANTS G, FROM, UPTO, STRETCH, SCALE   \* grid, which first segments, stretch of the x axis, unit 1/SCALE

Points == SetToSeq((0..G - 1) \X (0..G - 1))
Seg(k) == <<Points[((k - 1) \div Len(Points)) + 1], Points[((k - 1) % Len(Points)) + 1]>>
Total == Len(Points) * Len(Points)
Stretch(s) == << <<s[1][1] * STRETCH, s[1][2]>>, <<s[2][1] * STRETCH, s[2][2]>> >>

VARIABLE first
Init == first \in FROM..(IF UPTO < Total THEN UPTO ELSE Total)
Next == FALSE /\ first' = first
Spec == Init /\ [][Next]_first

S == Stretch(Seg(first))
T(k) == Stretch(Seg(k))
SameNotion == \A k \in 1..Total : Meet(S, T(k)) = MeetByParameters(S, T(k))
Symmetric == \A k \in 1..Total : /\ Crosses(S, T(k)) = Crosses(T(k), S)
                                 /\ Crosses(S, T(k)) = Crosses(<<S[2], S[1]>>, T(k))
Emit == PrintT("SCN " \o ToJson([ops |-> << [op |-> "graph", o |-> "a", nodes |-> <<"task", "task", "task", "task">>,
                                             edges |-> << <<1, 2>>, <<3, 4>> >>],
                                            [op |-> "pairs", o |-> "a", scale |-> SCALE, pairs |-> [k \in 1..Total |-> <<S, T(k)>>]]>>]))
=============================================================================
