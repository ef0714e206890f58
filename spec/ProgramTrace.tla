---------------------------- MODULE ProgramTrace ----------------------------
(* Acceptance of complete runs of the programs by all parties. *)
EXTENDS Program, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
vars == <<run, l>>
View == vars
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Init == l = 1 /\ run \in 1..Len(TraceRuns)
Quiet == R.trouble = "" /\ R.blocked = 0 /\ R.open = 0
Whole ==        \* everybody gets to the end with a right result (the programs check it), and nothing is left over
  /\ R.kind = "whole" /\ Quiet
  /\ \A p \in 1..R.n : R.res[p] = "exit0"
  /\ \A p, q \in 1..R.n : R.left[p][q] = 0
  /\ R.sent = Bytes(R.prog, R.n, R.size, R.depth)
Usage == R.kind = "usage" /\ Quiet /\ R.res = <<"exit0">> /\ R.sent = <<<<0>>>>
Refused == R.kind = "refused" /\ Quiet /\ R.res = <<"refused">> /\ R.sent = <<<<0>>>>      \* before any connection
Step == l = 1 /\ l' = 2 /\ UNCHANGED run /\ (Whole \/ Usage \/ Refused) = TRUE
Done == l = 2 /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
