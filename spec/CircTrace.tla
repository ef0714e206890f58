------------------------------ MODULE CircTrace ------------------------------
(* Acceptance of recorded histories of calls on the circuit interface. *)
EXTENDS CircAPI, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""
VARIABLES run, l, st
vars == <<run, l, st>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Ev == TraceRuns[run].ev[l]
Init == l = 1 /\ st = Fresh /\ run \in 1..Len(TraceRuns)

SameResult(e, r) ==
  /\ e.ok = r.ok
  /\ r.ok => IF e.op = "batches" THEN SeqBag(e.v) = SeqBag(r.v) ELSE e.v = r.v
Step == /\ l <= Len(TraceRuns[run].ev)
        /\ Ev.op # "crash"
        /\ Assert(Legal(st, Ev), "HISTORY OUTSIDE THE SPECIFIED INTERFACE")
        /\ \A r \in {MDeep(Apply(st, Ev))} :
             /\ SameResult(Ev, r) = TRUE
             /\ st' = r.st
        /\ l' = l + 1
        /\ UNCHANGED run
Done == /\ l = Len(TraceRuns[run].ev) + 1 /\ TraceRuns[run].ev[Len(TraceRuns[run].ev)].op = "end" /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
