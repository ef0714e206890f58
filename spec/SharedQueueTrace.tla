-------------------------- MODULE SharedQueueTrace --------------------------
(* Linearizability of recorded histories of the shared queue. *)
EXTENDS SharedQueue, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, poss
vars == <<run, l, poss>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Evs == TraceRuns[run].ev
N == TraceRuns[run].n
ToSet(s) == {s[i] : i \in 1..Len(s)}
Init == l = 1 /\ run \in 1..Len(TraceRuns) /\ poss = {[q |-> <<>>, st |-> [t \in 1..N |-> Idle]]}
E == Evs[l]
Call == l <= Len(Evs) /\ E[2] = 0 /\ poss' = Invoke(poss, E[1], E[3], E[4]) /\ poss' # {} /\ l' = l + 1 /\ UNCHANGED run
Ret == l <= Len(Evs) /\ E[2] = 1 /\ poss' = Return(poss, E[1], E[3], E[4]) /\ poss' # {} /\ l' = l + 1 /\ UNCHANGED run
Done == /\ l = Len(Evs) /\ E[2] = 2 /\ TraceRuns[run].trouble = ""
        /\ MayEnd(poss, ToSet(TraceRuns[run].blocked)) /\ UNCHANGED vars
Next == Call \/ Ret \/ Done
=============================================================================
