------------------------------ MODULE NetTrace ------------------------------
(* Acceptance of recorded runs of networks: [party, event, a, b]. *)
EXTENDS Net, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, net
vars == <<run, l, net>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Evs == R.ev
N == R.n
E == Evs[l]
P == E[1]
Init == l = 1 /\ run \in 1..Len(TraceRuns) /\ net = NewNet(TraceRuns[run].n)
Sockets == R.kind \in {"tcp", "thr"}
(* one connection per other party; the channels that stand for the other parties of a mock network are not created *)
Ready(p) == p \in net.created \/ (R.kind = "mock" /\ p # R.me)
Step ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED run
  /\ CASE E[2] = "created" -> P \notin net.created /\ E[3] = N /\ net' = Created(net, P)
       [] E[2] = "s" -> Ready(P) /\ net' = Sent(net, P, E[3], E[4])
       [] E[2] = "r" -> Ready(P) /\ MayReceive(net, P, E[3], E[4]) /\ net' = Received(net, P, E[3])
       [] E[2] = "open" -> net' = [net EXCEPT !.open = @ \cup {P}]
       [] OTHER -> FALSE /\ UNCHANGED net
Done ==
  /\ l = Len(Evs) /\ R.trouble = "" /\ R.blocked = <<>> /\ R.listening = 0
  /\ net.created = (IF R.kind = "mock" THEN {R.me} ELSE 0..(N - 1))
  /\ Sockets => net.open = 0..(N - 1)              \* everybody got to the end
  /\ \A i, j \in 0..(N - 1) : net.q[i][j] = <<>>
  /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
