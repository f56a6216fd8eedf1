------------------------------- MODULE GenCsv --------------------------------
(***************************************************************************)
(* Writes process spreadsheets row by row with a stack of open sequences.  *)
(* Every behaviour ends with a spreadsheet; WANT selects which ones are    *)
(* emitted: "good" (every row continues), "round" (those that survive a    *)
(* round trip), "dead" (some row has no continuation).                     *)
(***************************************************************************)
EXTENDS Csv, Json

CONSTANTS RANDOM, MAXROWS, MAXDEPTH, MAXBRANCH, GOTOS, RUNS, NEST, WANT, PLAN

VARIABLES rows, stack, phase, plan, twin   \* twin: other rows under the same orders
gvars == <<rows, stack, phase, plan, twin>>
Pick(S) == RandomElement(S)

(* a frame: the sequence pre; n rows or splits so far; what came last; number of branches opened at n+1 *)
Frame(pre, n, last) == [pre |-> pre, n |-> n, last |-> last, br |-> 0]
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Row(pre, n, kind, k) ==
  [pre |-> pre, n |-> n, short |-> "no", cond |-> "", sub |-> IF kind = "sub" THEN "yes" ELSE "", term |-> IF kind = "end" THEN "yes" ELSE "",
   goto |-> IF kind = "goto" THEN "?" ELSE "", activity |-> IF kind = "goto" THEN "" ELSE "T" \o ToString(k), who |-> "", order |-> ""]

Init == /\ rows = <<Row(<<>>, 0, "task", 0)>> /\ stack = <<Frame(<<>>, 0, "row")>> /\ phase = "write" /\ plan = <<>> /\ twin = <<>>

Written == Cardinality({k \in DOMAIN rows : rows[k].who # "run"})     \* rows besides the runs
Kinds0 == {"task", "sub", "end"} \cup (IF GOTOS THEN {"goto"} ELSE {})
Write(kind) ==
  /\ Top.br = 0 /\ Written < MAXROWS
  /\ rows' = Append(rows, Row(Top.pre, Top.n + 1, kind, Len(rows)))
  /\ stack' = IF kind \in {"end", "goto"} THEN Rest ELSE Append(Rest, [Top EXCEPT !.n = @ + 1, !.last = "row"])
(* a run: many tasks in a row, so that the numbers have several digits *)
RunTo(n) == IF n > 0 /\ Pick(1..2) = 1 THEN n + 9 ELSE IF n < 10 THEN Pick({8, 9, 10, 17, 18, 19, 20, 28, 29, IF Pick(1..5) = 1 THEN Pick({97, 98, 99, 100}) ELSE 18}) ELSE n + Pick({5, 8, 9, 10})
Long ==
  /\ RANDOM /\ Top.br = 0 /\ Written < MAXROWS /\ Len(rows) < 90
  /\ \E m \in {RunTo(Top.n) - Top.n} :
     /\ m > 0
     /\ rows' = rows \o [j \in 1..m |-> [Row(Top.pre, Top.n + j, "task", Len(rows) + j) EXCEPT !.who = "run"]]
     /\ stack' = Append(Rest, [Top EXCEPT !.n = @ + m, !.last = "row"])
Open ==
  /\ Top.last = "row" /\ Top.n + Len(stack) > 0 /\ Top.br < MAXBRANCH /\ Len(stack) <= MAXDEPTH /\ Written + 1 < MAXROWS
  /\ stack' = Append(Append(Rest, [Top EXCEPT !.br = @ + 1]),
                     Frame(Append(Top.pre, [n |-> Top.n + 1, l |-> Letters[Top.br + 1]]), 0, "start"))
  /\ UNCHANGED rows
(* where many branches are asked for, a split is kept open for long *)
Wide == MAXBRANCH > 6 /\ Top.br < MAXBRANCH /\ Written + 1 < MAXROWS
(* and its branches are short *)
Brief == MAXBRANCH > 6 /\ Len(stack) > 1 /\ Top.last = "row" /\ Pick(1..9) > 1
Close == /\ Top.br >= 2 /\ (~ Wide \/ Pick(1..9) = 1) /\ stack' = Append(Rest, [Top EXCEPT !.br = 0, !.n = @ + 1, !.last = "split"]) /\ UNCHANGED rows
EndBranch == /\ Len(stack) > 1 /\ Top.br = 0 /\ Top.last \in {"row", "split"} /\ stack' = Rest /\ UNCHANGED rows
EndAll == /\ Len(stack) = 1 /\ Top.br = 0 /\ Top.last \in {"row", "split"} /\ Len(rows) > 1 /\ stack' = Rest /\ UNCHANGED rows

Fixed(rs) == [k \in DOMAIN rs |-> [rs[k] EXCEPT !.order = Order(rs[k])]]
GoodShape == Dead(rows) = {}
(* goto targets, conditions, texts *)
SplitsOf(rs) == {k \in DOMAIN rs : Mode(rs, k) = "split"}
Texts0 == {"A", "B b", "~1", "~2", "~3", "~4", "~5", "~6", "~7", "~9", "", "C"}
CondTexts == {"x > 1", "~1", "~8", "~4", "maybe", "yes", "no", "else", "yes ", " no", " else ", "Yes", "No", "Else", "nothing else", "elsewhere", "yes or no"}
Scheme(n) == IF n = 2 THEN Pick({<<"yes", "no">>, <<"no", "yes">>, <<"", "">>, <<"x", "else">>, <<"else", "x">>, <<"a", "b">>, <<"yes", "maybe">>, <<"", "x">>, <<"yes ", " no">>, <<" else ", "x">>, <<"Yes", "No">>,
                            <<"x", "Else">>, <<"elsewhere", "x">>, <<"x", "nothing else">>, <<"yes", "yes">>, <<"no", "no ">>, <<Pick(CondTexts), Pick(CondTexts)>>})
             ELSE Pick({[j \in 1..n |-> ""], [j \in 1..n |-> "c" \o ToString(j)], [j \in 1..n |-> IF j = n THEN "else" ELSE Pick(CondTexts)],
                        [j \in 1..n |-> IF j = 1 THEN "yes" ELSE "no"], [j \in 1..n |-> Pick(CondTexts \cup {""})]})
LetterIndex(l) == CHOOSE j \in DOMAIN Letters : Letters[j] = l
Conds(rs) == LET sch == [s \in SplitsOf(rs) |-> Scheme(Cardinality(Branches(rs, s)))] IN
  [k \in DOMAIN rs |-> LET own == {s \in SplitsOf(rs) : k \in Branches(rs, s)} IN
     IF own = {} THEN rs[k]
     ELSE [rs[k] EXCEPT !.cond = sch[CHOOSE s \in own : TRUE][LetterIndex(Last(rs[k].pre).l)]]]
(* a branch of one row may be written without its 1 *)
OnlyRow(rs, k) == rs[k].pre # <<>> /\ rs[k].n = 1 /\ ~ IsGoto(rs[k]) /\ At(rs, rs[k].pre, 2) = {} /\ BranchFirst(rs, rs[k].pre, 2) = {}
Shorten(rs) == [k \in DOMAIN rs |-> IF OnlyRow(rs, k) /\ Pick(1..3) = 1 THEN [rs[k] EXCEPT !.short = "yes"] ELSE rs[k]]
Name(rs) == [k \in DOMAIN rs |-> IF IsGoto(rs[k]) THEN rs[k]
              ELSE [rs[k] EXCEPT !.activity = IF Pick(1..2) = 1 THEN @ ELSE Pick(Texts0), !.who = Pick({"", "me", "~1"})]]
GotoTexts == {"goto ", "goto ", "goto ", "Goto ", "GOTO  "}
Targets(rs, k) == {j \in DOMAIN rs : ~ IsGoto(rs[j]) /\ ~ (rs[j].pre = <<>> /\ rs[j].n = 0)}
Preferred(rs, k) ==   \* the continuing row of the split, if this is a branch of its own
  {j \in Targets(rs, k) : rs[k].pre # <<>> /\ rs[k].n = 1 /\ rs[j].pre = Front(rs[k].pre) /\ rs[j].n = Last(rs[k].pre).n + 1}
Aim(rs) == [k \in DOMAIN rs |-> IF ~ IsGoto(rs[k]) THEN rs[k]
             ELSE LET T == IF Preferred(rs, k) # {} /\ (WANT = "round" \/ Pick(1..2) = 1) THEN Preferred(rs, k) ELSE Targets(rs, k) IN
                  IF T = {} THEN [rs[k] EXCEPT !.goto = "99"]
                  ELSE LET t == Order(rs[Pick(T)]) IN [rs[k] EXCEPT !.goto = t]]
GoText(rs) == [k \in DOMAIN rs |-> IF IsGoto(rs[k])
                 THEN [rs[k] EXCEPT !.activity = (IF WANT = "round" THEN "goto " ELSE Pick(GotoTexts)) \o rs[k].goto] ELSE rs[k]]
Dress(rs) == IF RANDOM THEN Fixed(GoText(Aim(Name(Shorten(Conds(rs)))))) ELSE Fixed(GoText(Aim(Conds(rs))))
(* another spreadsheet with the same orders: other texts, other conditions, tasks and sub-processes exchanged *)
Twin(rs) == LET t == Name(Conds([k \in DOMAIN rs |-> [rs[k] EXCEPT !.cond = "", !.sub = IF IsGoto(rs[k]) \/ rs[k].term = "yes" \/ k = 1 THEN @ ELSE IF @ = "yes" THEN "" ELSE "yes"]]))
            IN [k \in DOMAIN t |-> [t[k] EXCEPT !.activity = IF IsGoto(t[k]) THEN @ ELSE "U" \o ToString(k)]]
On(op, o) == [op |-> op, o |-> o]
LoadCsv(o, st) == [op |-> "loadcsv", o |-> o, csv |-> 1, style |-> st]
CsvStyle(q) == Pick({"plain", "crlf", "quoted", "spaces", "reversed", "shuffled"})
Plans(kind) ==
  CASE kind = "load" -> <<LoadCsv("a", IF RANDOM THEN CsvStyle(0) ELSE "plain")>>
    [] kind = "round" -> <<LoadCsv("a", "plain"), On("csvexport", "a"), [op |-> "reloadcsv", o |-> "b", file |-> 2], On("csvexport", "b")>>
    [] kind = "wide" -> <<LoadCsv("a", "plain"), On("queries", "a"), On("metrics", "a"), On("paths", "a"), On("layout", "a"), On("export", "a"),
                          On("queries", "a"), On("cross", "a"), [op |-> "reload", o |-> "b", file |-> 6], On("csvexport", "a")>>
    [] kind = "straight" -> <<LoadCsv("a", "plain"), On("export", "a"), [op |-> "reload", o |-> "b", file |-> 2], On("queries", "b"), On("nodi", "b"), On("export", "b"),
                              On("layout", "b"), On("export", "b")>>
    [] kind = "reads" -> <<LoadCsv("a", "plain"), [op |-> "reads", o |-> "a", which |-> <<"queries", "counts", "paths", "csv", "dot">>], On("layout", "a"),
                           [op |-> "reads", o |-> "a", which |-> <<"xml", "nodi", "cross", "csv", "png">>]>>
    [] kind = "two" -> <<LoadCsv("a", "plain"), LoadCsv("b", "plain"), On("layout", "a"), On("queries", "b"),
                         [op |-> "task", o |-> "b", p |-> "process_1", name |-> "A", id |-> "@def"],
                         [op |-> "new", o |-> "a", name |-> "A"], LoadCsv("a", "plain"), On("queries", "a")>>
    [] kind = "twin" -> <<LoadCsv("a", "plain"), [LoadCsv("b", CsvStyle(0)) EXCEPT !.csv = 2], On("queries", "a"), On("layout", "b"), On("queries", "b"),
                          [op |-> "new", o |-> "a", name |-> "A"], [LoadCsv("a", "plain") EXCEPT !.csv = 2], LoadCsv("c", "plain"), On("queries", "a"), On("queries", "c")>>
    [] kind = "draw" -> <<LoadCsv("a", "plain"), On("dot", "a"), On("png", "a"), On("layout", "a"), On("draw", "a")>>

Finish == /\ phase = "write" /\ stack = <<>>
          /\ \E rs \in {Dress(rows)}, k \in {PLAN[Pick(DOMAIN PLAN)]} : \E pl \in {Plans(k)}, tw \in {IF k = "twin" THEN Twin(rs) ELSE <<>>} : rows' = rs /\ plan' = pl /\ twin' = tw
          /\ phase' = "done" /\ UNCHANGED stack
Step == /\ phase = "write" /\ stack # <<>> /\ UNCHANGED <<phase, plan, twin>>
        /\ IF RUNS /\ Top.br = 0 /\ (Len(rows) = 1 \/ (Top.last = "start" /\ Len(rows) < 60 /\ Pick(1..3) = 1)) THEN Long
           ELSE \/ ~ Brief /\ \E kind \in Kinds0 : Write(kind)
                \/ Open \/ Close \/ EndBranch \/ EndAll
                \/ ~ Brief /\ Pick(1..5) = 1 /\ Long
(* splits inside splits, with short branches, some of which continue after the split and some of which do not *)
Put(kind) ==
  /\ rows' = Append(rows, Row(Top.pre, Top.n + 1, kind, Len(rows)))
  /\ stack' = IF kind \in {"end", "goto"} THEN Rest ELSE Append(Rest, [Top EXCEPT !.n = @ + 1, !.last = "row"])
Room == Len(stack) <= MAXDEPTH /\ Written + 4 < MAXROWS
(* of a spreadsheet that survives a round trip, what follows a split is written after it, and branches rarely end *)
Round == WANT = "round"
Another ==
  /\ stack' = Append(Append(Rest, [Top EXCEPT !.br = @ + 1]), Frame(Append(Top.pre, [n |-> Top.n + 1, l |-> Letters[Top.br + 1]]), 0, "start"))
  /\ UNCHANGED rows
Nested(w, v) ==
  CASE RUNS /\ Top.br = 0 /\ ((Len(rows) = 1 /\ v <= 3) \/ (Len(stack) = 1 /\ Top.last = "split" /\ Len(rows) < 60 /\ w <= 7) \/ (Top.last = "start" /\ Len(rows) < 60 /\ v = 1)) -> Long
    [] Top.br > 0 -> IF Top.br < 2 \/ (Top.br < MAXBRANCH /\ (w <= 2 \/ (MAXBRANCH > 6 /\ w < 10)) /\ Written + 1 < MAXROWS) THEN Another
                     ELSE stack' = Append(Rest, [Top EXCEPT !.br = 0, !.n = @ + 1, !.last = "split"]) /\ UNCHANGED rows
    [] Len(stack) = 1 -> IF Top.last = "row" /\ Room /\ w <= 7 THEN Another
                         ELSE IF WANT = "dead" /\ w <= 6 /\ Len(rows) > 1 THEN EndAll
                         ELSE IF w <= 7 \/ Written >= MAXROWS THEN Put("end") ELSE Put(IF w = 8 THEN "sub" ELSE "task")
    [] Top.last = "start" -> Put(CASE w = 1 /\ (~ Round \/ v = 1) -> (IF GOTOS /\ v <= 2 THEN "goto" ELSE "end") [] w <= 3 -> "sub" [] OTHER -> "task")
    [] Top.last = "row" -> IF Room /\ w <= 5 THEN Another
                           ELSE IF w <= 7 /\ Written < MAXROWS THEN Put(CASE v = 1 /\ (~ Round \/ w = 6) -> "end" [] v = 2 /\ GOTOS /\ ~ Round -> "goto" [] v = 3 -> "sub" [] OTHER -> "task")
                           ELSE EndBranch
    [] OTHER -> IF w <= 5 /\ ~ Round THEN EndBranch ELSE Put(IF v = 1 /\ ~ Round THEN "end" ELSE "task")
NestStep == /\ phase = "write" /\ stack # <<>> /\ UNCHANGED <<phase, plan, twin>> /\ \E w \in {Pick(1..10)}, v \in {Pick(1..5)} : Nested(w, v)
Next == (IF NEST THEN NestStep ELSE Step) \/ Finish
Spec == Init /\ [][Next]_gvars

(* ------------------------------- properties ------------------------------- *)
Legal == SingleArrows(rows) /\ Entered(rows)
Good == phase = "done" /\ Dead(rows) = {} /\ LostGotos(rows) = {} /\ Legal
Reaches == [m \in {"seq", "split", "merge", "goto", "end"} |-> Cardinality({k \in DOMAIN rows : Mode(rows, k) = m})]
(* a good spreadsheet stands for a consistent graph without dead ends (C19, C23) *)
Meaningful == Good =>
  LET nodes == SheetNodes(rows)  flows == SheetFlows(rows) IN
  /\ \A f \in DOMAIN flows : flows[f].src \in DOMAIN nodes /\ flows[f].tgt \in DOMAIN nodes
  /\ \A n \in DOMAIN nodes : nodes[n].type # "endEvent" => \E f \in DOMAIN flows : flows[f].src = n
  /\ \A n \in DOMAIN nodes : nodes[n].type = "endEvent" => ~ \E f \in DOMAIN flows : flows[f].src = n
  /\ \A n \in DOMAIN nodes : IsGate(nodes[n]) =>
        Cardinality({f \in DOMAIN flows : flows[f].src = n}) + Cardinality({f \in DOMAIN flows : flows[f].tgt = n}) >= 3
Wanted == CASE WANT = "good" -> Good [] WANT = "round" -> Good /\ RoundTrip(rows)
            [] WANT = "dead" -> phase = "done" /\ (Dead(rows) # {} \/ LostGotos(rows) # {}) /\ Len(rows) > 1 /\ (Dead(rows) # {} \/ Legal)
            [] OTHER -> FALSE
Emit == (phase = "done" /\ Wanted) => PrintT("SCN " \o ToJson([csvs |-> IF twin = <<>> THEN <<rows>> ELSE <<rows, twin>>, ops |-> plan]))
=============================================================================
