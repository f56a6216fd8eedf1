----------------------------- MODULE GenElements -----------------------------
(***************************************************************************)
(* Histories of typed elements: objects are made, their fields set to      *)
(* documented and undocumented values, and the lists they hand out grown.  *)
(* With SWEEP, one behaviour per class and field that tries every value;   *)
(* otherwise random histories over a few objects.                          *)
(***************************************************************************)
EXTENDS Elements, Json

CONSTANTS SWEEP, MAXLEN

VARIABLES objs, hist, left
vars == <<objs, hist, left>>

Names == {"a", "b", "c"}
ValueSeq == SetToSeq(Values)
Pick(S) == RandomElement(S)

Make(o, c, s, t) == [op |-> "emake", n |-> o, cls |-> c, src |-> s, tgt |-> t]
Set(o, f, v) == [op |-> "eset", n |-> o, f |-> f, v |-> v]
Grow(o, f, w) == [op |-> "eappend", n |-> o, f |-> f, w |-> w]

(* the documented effect; an open case keeps the old value here *)
Effect(op) ==
  CASE op.op = "emake" -> IF MakeRefused(op.cls, op.src, op.tgt) THEN objs
                          ELSE (op.n :> [cls |-> op.cls, f |-> Made(op.cls, op.src, op.tgt)]) @@ objs
    [] op.op = "eset" -> IF Accepts(DomainOf(objs[op.n].cls, op.f), op.v) THEN [objs EXCEPT ![op.n].f[op.f] = op.v] ELSE objs
    [] OTHER -> [objs EXCEPT ![op.n].f[op.f] = Append(@, op.w)]
Do(op) == objs' = Effect(op) /\ hist' = Append(hist, op)

S1 == <<"atom", "s:abc">>
Fits(dom) == CASE dom = "strs" -> "s:abc" [] dom = "Lanes" -> "o:Lane" [] dom = "LaneSets" -> "o:LaneSet"
               [] dom = "FlowElements" -> "o:Task" [] OTHER -> "o:EventDefinition"

RandomOp ==
  LET o == Pick(Names)
      c == Pick(Classes)
  IN IF o \notin DOMAIN objs \/ Pick(1..12) = 1
     THEN Make(o, c, IF Pick(1..5) = 1 THEN Pick(Values) ELSE S1, IF Pick(1..5) = 1 THEN Pick(Values) ELSE <<"atom", "s:x">>)
     ELSE LET f == Pick(DOMAIN objs[o].f)
              dom == DomainOf(objs[o].cls, f)
          IN IF IsList(dom) /\ Pick(1..4) = 1 THEN Grow(o, f, Fits(dom))
             ELSE LET good == {v \in Values : Accepts(dom, v)}
                      near == {v \in Values : ~ Accepts(dom, v) /\ v[1] = (IF IsList(dom) THEN "list" ELSE "atom")}
                  IN Set(o, f, Pick(Pick({good, good, near, Values})))

Init == /\ objs = <<>> /\ hist = <<>>
        /\ IF SWEEP THEN left \in {<<c, f>> : c \in Classes, f \in UNION {DOMAIN FieldsOf(k) : k \in Classes}}
                         /\ left[2] \in DOMAIN FieldsOf(left[1])
           ELSE left = <<"", "">>
SweepOp == LET n == Len(hist) + 1 IN
  CASE n = 1 -> Make("a", left[1], S1, S1)
    [] n = 2 -> Make("b", left[1], S1, <<"atom", "s:y">>)
    [] n = 3 /\ IsList(DomainOf(left[1], left[2])) -> Grow("b", left[2], Fits(DomainOf(left[1], left[2])))
    [] OTHER -> Set("a", left[2], ValueSeq[n - (IF IsList(DomainOf(left[1], left[2])) THEN 3 ELSE 2)])
Length == IF SWEEP THEN Len(ValueSeq) + (IF IsList(DomainOf(left[1], left[2])) THEN 3 ELSE 2) ELSE MAXLEN
Next == /\ Len(hist) < Length
        /\ left' = left
        /\ IF SWEEP THEN Do(SweepOp) ELSE \E z \in {RandomOp} : Do(z)
Spec == Init /\ [][Next]_vars

(* every field always holds a documented value (or its default) *)
Typed == \A o \in DOMAIN objs : \A f \in DOMAIN objs[o].f :
           LET dom == DomainOf(objs[o].cls, f)  v == objs[o].f[f] IN Accepts(dom, v) \/ v = FieldsOf(objs[o].cls)[f][2]
OneField ==
  [][\A o \in DOMAIN objs : o \in DOMAIN objs' /\ (hist'[Len(hist')].op = "emake" \/
       {f \in DOMAIN objs[o].f : objs'[o].f[f] # objs[o].f[f]} \subseteq {hist'[Len(hist')].f})]_vars

Emit == Len(hist) = Length => PrintT("SCN " \o ToJson(hist))
=============================================================================
