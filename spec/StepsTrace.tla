----------------------------- MODULE StepsTrace -----------------------------
EXTENDS Steps, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
vars == <<run, l>>
View == vars
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Init == l = 1 /\ run \in 1..Len(TraceRuns)
Right == LET e == Evaluate(R.plan, R.len, R.carry) IN
         /\ R.log = Append(e.log, <<"end", 0, 0, 0, 0>>) /\ R.ok = e.ok /\ R.value = e.value /\ (e.ok => R.r = e.r)
Step == l = 1 /\ l' = 2 /\ UNCHANGED run /\ Right = TRUE
Done == l = 2 /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
