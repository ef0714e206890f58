------------------------------ MODULE MathTrace ------------------------------
(* Acceptance of recorded runs of the register machine. *)
EXTENDS MathMachine, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, st
vars == <<run, l, st>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Evs == TraceRuns[run].ev
R == TraceRuns[run].ring
Ev == Evs[l]
Init == /\ l = 1
        /\ run \in 1..Len(TraceRuns)
        /\ st = Fresh(TraceRuns[run].ring)
Sampling == {"xrand", "vrand", "vprand", "mrand"}
Same(e, o) == e.ok = o.ok /\ (o.ok = 1 => e.r = o.r)
Call == /\ l <= Len(Evs)
        /\ Ev.op \notin Sampling \cup {"crash", "dump"}
        /\ Assert(Legal(R, st, Ev), "CALL OUTSIDE THE SPECIFIED INTERFACE")
        /\ \A o \in {MDeep(Apply(R, st, Ev))} :
             /\ Same(Ev, o) = TRUE
             /\ st' = o.st
        /\ l' = l + 1
        /\ UNCHANGED run
Sample == /\ l <= Len(Evs)
          /\ Ev.op \in Sampling
          /\ (Ev.ok = 1 /\ Sampled(R, Ev.r[1], Ev.r[2], Ev.from)) = TRUE
          /\ (Ev.op = "mrand" => Ev.dim = <<Ev.a[1], Ev.a[2]>>) = TRUE
          /\ (Len(Ev.r[1]) = IF Ev.op = "mrand" THEN Ev.a[1] * Ev.a[2] ELSE Ev.a[1]) = TRUE
          /\ l' = l + 1
          /\ UNCHANGED <<run, st>>
(* at the end every register holds what the calls put there, and nothing else *)
Dump == /\ l = Len(Evs)
        /\ Ev.op = "dump"
        /\ (Ev.x = st.x /\ Ev.v = st.v /\ Ev.m = st.m /\ (R.k = "M" => Ev.p = st.p)) = TRUE
        /\ l' = l + 1
        /\ UNCHANGED <<run, st>>
Done == l = Len(Evs) + 1 /\ UNCHANGED vars
Next == Call \/ Sample \/ Dump \/ Done
=============================================================================
