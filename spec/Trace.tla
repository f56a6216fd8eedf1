-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the real code against the specification.  *)
(*                                                                         *)
(* TRACE (environment) names a JSON file: a sequence of runs, each with    *)
(* events (operation, arguments, outcome, answer, and for every diagram    *)
(* object the index of its projected state), states, docs and csvs.        *)
(* Every event is judged by the operators of the specification; each       *)
(* clause that fails is printed with the property it belongs to, and the   *)
(* check goes on from the recorded state, so that the rest of the run is   *)
(* judged, too.                                                            *)
(***************************************************************************)
EXTENDS Judge

Runs == JsonDeserialize(IOEnv.TRACE)

VARIABLES sc, i, used
tvars == <<sc, i, used>>

AllIds(run, ev) == UNION {IdsOf(run.states[ev.post[o]]) : o \in DOMAIN ev.post}

TraceInit == sc \in DOMAIN Runs /\ i = 1 /\ used = AllIds(Runs[sc], Runs[sc].events[1])

Report(bad) == \A v \in bad : PrintT(<<"VIOL", v[1], v[2], Runs[sc].sid, i>>)

TraceNext ==
  LET run == Runs[sc] IN
  \/ /\ i < Len(run.events)
     /\ Report(JudgeEvent(run, i + 1, used))
     /\ i' = i + 1
     /\ used' = used \cup AllIds(run, run.events[i + 1])
     /\ sc' = sc
  \/ /\ i = Len(run.events)
     /\ PrintT(<<"DONE", run.sid, i>>)
     /\ i' = i + 1 /\ UNCHANGED <<sc, used>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
