------------------------------- MODULE Channel -------------------------------
(***************************************************************************)
(* A channel as its users see it: a byte stream in each direction, both    *)
(* ends possibly closed, the connection possibly failed.  Byte k of the    *)
(* stream that end d sends has the value Code(d, k).                       *)
(*   started[d]  bytes of the sends called so far on end d                 *)
(*   rcvd[d]     bytes of that stream delivered so far, or Gone            *)
(*   closing[e], closed[e]   Close (or the destructor) called / returned   *)
(* `kinds` are the implementations at the two ends: "mem" and "self" have  *)
(* no effective Close; "thr" sends in the background.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Ends == {0, 1}
Gone == -1
Code(d, k) == ((k * 7) + (d * 101) + 3) % 251
Bytes(d, from, n) == [i \in 1..n |-> Code(d, from + i - 1)]
Closable(kinds, e) == kinds[e + 1] \notin {"mem", "self"}
InDir(kinds, e) == IF kinds[1] = "self" THEN e ELSE 1 - e         \* the stream that end e receives
NewChannel == [started |-> [d \in Ends |-> 0], rcvd |-> [d \in Ends |-> 0],
               closing |-> [e \in Ends |-> FALSE], closed |-> [e \in Ends |-> FALSE], failed |-> FALSE]
MaySendErr(c, e) == c.failed \/ c.closing[e] \/ c.closing[1 - e]
(* effects of the calls; a send on a closed end has no effect *)
SendCalled(kinds, c, e, n) == IF Closable(kinds, e) /\ c.closing[e] THEN c ELSE [c EXCEPT !.started[e] = @ + n]
CloseCalled(kinds, c, e) == IF Closable(kinds, e) THEN [c EXCEPT !.closing[e] = TRUE] ELSE c
CloseReturned(kinds, c, e) == IF Closable(kinds, e) THEN [c EXCEPT !.closed[e] = TRUE] ELSE c
Failure(c) == [c EXCEPT !.failed = TRUE]
RecvOk(kinds, c, e, n, data) ==
  LET d == InDir(kinds, e) IN
  /\ n > 0 => c.rcvd[d] # Gone
  /\ n > 0 => c.rcvd[d] + n <= c.started[d]
  /\ data = Bytes(d, IF n = 0 THEN 0 ELSE c.rcvd[d], n)
AfterRecv(kinds, c, e, n) == IF n = 0 THEN c ELSE [c EXCEPT !.rcvd[InDir(kinds, e)] = @ + n]
(* the receiver throws away what was sent to it *)
Flushed(kinds, c, e) == [c EXCEPT !.rcvd[InDir(kinds, e)] = c.started[InDir(kinds, e)]]
Missing(c, d, n) == c.rcvd[d] # Gone /\ c.rcvd[d] + n > c.started[d]       \* more than was ever sent
RecvErr(kinds, c, e, n) ==       \* an error only when the bytes cannot come
  LET d == InDir(kinds, e) IN
  \/ c.failed \/ c.closing[e] \/ c.rcvd[d] = Gone
  \/ (c.closing[1 - e] /\ Missing(c, d, n))
AfterRecvErr(kinds, c, e) == [c EXCEPT !.rcvd[InDir(kinds, e)] = Gone]
(* who may wait forever: B maps the ends to the calls (kind, n) blocked on them *)
MayStay(kinds, cap, c, B) ==
  LET unread(d, e) == \* end e's stream holds more than the connection can, and nobody asks for it
        /\ ~c.failed /\ ~c.closed[1 - e]
        /\ c.rcvd[d] # Gone /\ c.rcvd[d] + cap < c.started[d]
        /\ \A b \in B : ~(b.op = "r" /\ InDir(kinds, b.e) = d)
  IN \A b \in B :
       CASE b.op = "r" -> Missing(c, InDir(kinds, b.e), b.n) /\ ~c.failed /\ ~c.closing[b.e] /\ ~c.closed[1 - b.e]
         [] b.op = "s" -> kinds[b.e + 1] = "tcp" /\ unread(b.e, b.e)
         [] b.op \in {"c", "x"} -> kinds[b.e + 1] = "thr" /\ unread(b.e, b.e)
         [] OTHER -> FALSE
=============================================================================
