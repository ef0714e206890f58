----------------------------- MODULE HashTrace -----------------------------
(* The hash objects of a program: each holds the bytes given to it so far; *)
(* reading a digest consumes it.                                           *)
EXTENDS Keccak, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, obj
vars == <<run, l, obj>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Evs == TraceRuns[run].ev
B == TraceRuns[run].b
Slots == 1..4
Init == l = 1 /\ run \in 1..Len(TraceRuns) /\ obj = [s \in Slots |-> <<>>]
Is(op) == l <= Len(Evs) /\ Evs[l].op = op
Step == l' = l + 1 /\ UNCHANGED run
New == Is("new") /\ obj' = [obj EXCEPT ![Evs[l].s] = <<>>] /\ Step
Update == Is("upd") /\ obj' = [obj EXCEPT ![Evs[l].s] = @ \o Evs[l].d] /\ Step
Copy == Is("copy") /\ obj' = [obj EXCEPT ![Evs[l].s] = obj[Evs[l].f]] /\ Step
Finalize == Is("fin") /\ (Evs[l].r = Sha3(B, obj[Evs[l].s])) = TRUE
            /\ obj' = [obj EXCEPT ![Evs[l].s] = <<>>] /\ Step     \* spent; the harness puts a new one in its place
Done == l = Len(Evs) /\ Is("end") /\ UNCHANGED vars
Next == New \/ Update \/ Copy \/ Finalize \/ Done
=============================================================================
