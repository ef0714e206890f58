----------------------------- MODULE TableTrace -----------------------------
(* Answers of a discovery client to the table of a server.  Line: me, rows <<id, port, host>>, ok, id, got. *)
EXTENDS Net, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
vars == <<run, l>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
T == [i \in 1..Len(R.rows) |-> [id |-> R.rows[i][1], port |-> R.rows[i][2], host |-> R.rows[i][3]]]
Init == l = 1 /\ run \in 1..Len(TraceRuns)
Right == IF Consistent(R.me, T)
         THEN R.ok = 1 /\ R.id = R.me /\ R.got = [i \in 1..Len(T) |-> LET e == ById(T)[i] IN <<e.id, e.port, e.host>>]
         ELSE R.ok = 0
Step == l = 1 /\ (Right = TRUE) /\ l' = 2 /\ UNCHANGED run
Next == Step \/ (l = 2 /\ UNCHANGED vars)
=============================================================================
