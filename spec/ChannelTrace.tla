---------------------------- MODULE ChannelTrace ----------------------------
(* Acceptance of recorded channel histories: [thread, call/return/end, operation, end, n, ok, data]. *)
EXTENDS Channel, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, c, pend
vars == <<run, l, c, pend>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Evs == TraceRuns[run].ev
K == TraceRuns[run].kinds
ToSet(s) == {s[i] : i \in 1..Len(s)}
None == [op |-> "", e |-> 0, n |-> 0]
Init == l = 1 /\ run \in 1..Len(TraceRuns) /\ c = NewChannel /\ pend = [t \in 1..8 |-> None]
E == Evs[l]
Op == E[3]
End == E[4]
N == E[5]
Step == l' = l + 1 /\ UNCHANGED run
Call ==
  /\ l <= Len(Evs) /\ E[2] = 0
  /\ c' = CASE Op = "s" -> SendCalled(K, c, End, N)
            [] Op \in {"c", "x"} -> CloseCalled(K, c, End)
            [] Op = "a" -> Failure(c)
            [] OTHER -> c
  /\ pend' = [pend EXCEPT ![E[1]] = [op |-> Op, e |-> End, n |-> N]]
  /\ Step
Ok == E[6] = 1
Return ==
  /\ l <= Len(Evs) /\ E[2] = 1
  /\ CASE Op = "s" -> (Ok \/ MaySendErr(c, End)) /\ UNCHANGED c
       [] Op = "r" /\ Ok -> RecvOk(K, c, End, N, E[7]) /\ c' = AfterRecv(K, c, End, N)
       [] Op = "r" /\ ~Ok -> RecvErr(K, c, End, N) /\ c' = AfterRecvErr(K, c, End)
       [] Op = "R" /\ ~Ok -> RecvErr(K, c, End, N) /\ c' = AfterRecvErr(K, c, End)
       [] Op = "R" /\ Ok -> (N > 0 => E[7] = <<c.rcvd[InDir(K, End)]>>) /\ c.rcvd[InDir(K, End)] + N <= c.started[InDir(K, End)]
                      /\ c' = AfterRecv(K, c, End, N)          \* E[7]: the place in the stream the data are from
       [] Op = "f" -> Ok /\ c' = Flushed(K, c, End)
       [] Op \in {"c", "x"} -> Ok /\ c' = CloseReturned(K, c, End)
       [] OTHER -> Ok /\ UNCHANGED c
  /\ pend' = [pend EXCEPT ![E[1]] = None]
  /\ Step
Done ==
  /\ l = Len(Evs) /\ E[2] = 2 /\ TraceRuns[run].trouble = ""
  /\ \A t \in 1..8 : pend[t] # None => t \in ToSet(TraceRuns[run].blocked)
  /\ MayStay(K, TraceRuns[run].cap, c, {pend[t] : t \in ToSet(TraceRuns[run].blocked)})
  /\ UNCHANGED vars
Next == Call \/ Return \/ Done
=============================================================================
