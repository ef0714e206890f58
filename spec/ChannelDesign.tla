---------------------------- MODULE ChannelDesign ----------------------------
(***************************************************************************)
(* One direction of a channel, as implemented, for all ways of cutting the *)
(* stream into sends and receives:                                         *)
(*   "mem"  a queue of chunks, the receiver keeps what is left of a chunk  *)
(*   "tcp"  a bounded kernel buffer, reads and writes move any part        *)
(*   "thr"  a queue of chunks, a background thread writes them to a socket *)
(*          and Close waits for it: the stop marker is queued behind the   *)
(*          data, and the socket is closed after the thread has ended      *)
(* Byte k of the stream is the number k.  The receiver may be gone at any  *)
(* moment (PEERDIES).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MODE, TOTAL, MAXS, MAXR, CAP, PEERDIES
VARIABLES sent,     \* bytes accepted from the caller
          spc, srem,          \* caller: "idle", "write" (srem bytes of the call to go), "closing", "closed"
          chunks, over,       \* in-memory or background queue; what is left of a chunk
          wpc, wrem,          \* background thread: "pop", "write" (bytes to go), "ended"
          kern,               \* kernel buffer
          sockopen, peer,     \* sender's socket, receiver's process
          got, rpc, rrem      \* receiver: bytes delivered, "idle"/"read", bytes to go
vars == <<sent, spc, srem, chunks, over, wpc, wrem, kern, sockopen, peer, got, rpc, rrem>>
Seg(a, n) == [i \in 1..n |-> a + i]
Stop == <<>>
Init == /\ sent = 0 /\ spc = "idle" /\ srem = <<>> /\ chunks = <<>> /\ over = <<>> /\ wpc = "pop" /\ wrem = <<>>
        /\ kern = <<>> /\ sockopen = TRUE /\ peer = TRUE /\ got = <<>> /\ rpc = "idle" /\ rrem = 0
SendCall(n) ==
  /\ spc = "idle" /\ sent + n <= TOTAL /\ (n = 0 => Len(chunks) < 2) /\ sent' = sent + n
  /\ CASE MODE = "mem" -> chunks' = Append(chunks, Seg(sent, n)) /\ UNCHANGED <<spc, srem>>
       [] MODE = "thr" -> chunks' = (IF n = 0 THEN chunks ELSE Append(chunks, Seg(sent, n))) /\ UNCHANGED <<spc, srem>>
       [] MODE = "tcp" -> spc' = "write" /\ srem' = Seg(sent, n) /\ UNCHANGED chunks
  /\ UNCHANGED <<over, wpc, wrem, kern, sockopen, peer, got, rpc, rrem>>
Room == IF Len(kern) < CAP THEN CAP - Len(kern) ELSE 0
Write ==        \* the caller's thread, "tcp"
  /\ spc = "write"
  /\ IF srem = <<>> \/ ~peer THEN spc' = "idle" /\ srem' = <<>> /\ UNCHANGED kern
     ELSE \E k \in 1..Room : k <= Len(srem) /\ kern' = kern \o SubSeq(srem, 1, k) /\ srem' = SubSeq(srem, k + 1, Len(srem)) /\ UNCHANGED spc
  /\ UNCHANGED <<sent, chunks, over, wpc, wrem, sockopen, peer, got, rpc, rrem>>
Background ==
  /\ MODE = "thr"
  /\ CASE wpc = "pop" ->
            /\ chunks # <<>> /\ chunks' = Tail(chunks)
            /\ IF Head(chunks) = Stop THEN wpc' = "ended" /\ UNCHANGED wrem ELSE wpc' = "write" /\ wrem' = Head(chunks)
            /\ UNCHANGED kern
       [] wpc = "write" ->
            /\ IF ~peer THEN wpc' = "ended" /\ wrem' = <<>> /\ UNCHANGED kern
               ELSE IF wrem = <<>> THEN wpc' = "pop" /\ UNCHANGED <<wrem, kern>>
               ELSE \E k \in 1..Room : k <= Len(wrem) /\ kern' = kern \o SubSeq(wrem, 1, k) /\ wrem' = SubSeq(wrem, k + 1, Len(wrem)) /\ UNCHANGED wpc
            /\ UNCHANGED chunks
       [] wpc = "ended" -> FALSE
  /\ UNCHANGED <<sent, spc, srem, over, sockopen, peer, got, rpc, rrem>>
CloseCall ==
  /\ spc = "idle" /\ MODE # "mem"
  /\ spc' = "closing" /\ chunks' = (IF MODE = "thr" THEN Append(chunks, Stop) ELSE chunks)
  /\ UNCHANGED <<sent, srem, over, wpc, wrem, kern, sockopen, peer, got, rpc, rrem>>
CloseReturn ==
  /\ spc = "closing" /\ (MODE = "thr" => wpc = "ended")
  /\ spc' = "closed" /\ sockopen' = FALSE
  /\ UNCHANGED <<sent, srem, chunks, over, wpc, wrem, kern, peer, got, rpc, rrem>>
RecvCall(n) ==
  /\ rpc = "idle" /\ peer
  /\ rpc' = "read" /\ rrem' = n
  /\ UNCHANGED <<sent, spc, srem, chunks, over, wpc, wrem, kern, sockopen, peer, got>>
Min(a, b) == IF a < b THEN a ELSE b
Read ==
  /\ rpc = "read" /\ peer
  /\ IF rrem = 0 THEN rpc' = "idle" /\ UNCHANGED <<rrem, got, over, kern, chunks>>
     ELSE IF MODE = "mem"
     THEN IF over # <<>>
          THEN LET k == Min(rrem, Len(over)) IN
               got' = got \o SubSeq(over, 1, k) /\ over' = SubSeq(over, k + 1, Len(over)) /\ rrem' = rrem - k /\ UNCHANGED <<rpc, kern, chunks>>
          ELSE /\ chunks # <<>> /\ chunks' = Tail(chunks)
               /\ LET k == Min(rrem, Len(Head(chunks))) IN
                  got' = got \o SubSeq(Head(chunks), 1, k) /\ over' = SubSeq(Head(chunks), k + 1, Len(Head(chunks))) /\ rrem' = rrem - k
               /\ UNCHANGED <<rpc, kern>>
     ELSE IF kern # <<>>
     THEN \E k \in 1..Min(rrem, Len(kern)) : got' = got \o SubSeq(kern, 1, k) /\ kern' = SubSeq(kern, k + 1, Len(kern))
                                             /\ rrem' = rrem - k /\ UNCHANGED <<rpc, over, chunks>>
     ELSE ~sockopen /\ rpc' = "eof" /\ UNCHANGED <<rrem, got, over, kern, chunks>>        \* an error, not a return
  /\ UNCHANGED <<sent, spc, srem, wpc, wrem, sockopen, peer>>
Die == PEERDIES /\ peer /\ peer' = FALSE /\ UNCHANGED <<sent, spc, srem, chunks, over, wpc, wrem, kern, sockopen, got, rpc, rrem>>
Proto == Write \/ Background \/ CloseReturn \/ Read
Next == Proto \/ CloseCall \/ Die \/ (\E n \in 0..MAXS : SendCall(n)) \/ (\E n \in 0..MAXR : RecvCall(n))
        \/ (spc = "closed" /\ UNCHANGED vars)
(* for liveness: the receiver keeps receiving until the end of the stream *)
Reading == \E n \in 1..MAXR : RecvCall(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Background) /\ WF_vars(CloseReturn) /\ WF_vars(Read) /\ SF_vars(Reading)

InOrder == got = Seg(0, Len(got)) /\ Len(got) <= sent
Nothing == \* every accepted byte is somewhere on its way, in order, unless the receiver is gone
  peer => LET fl[i \in 0..Len(chunks)] == IF i = 0 THEN <<>> ELSE fl[i - 1] \o chunks[i]
          IN got \o over \o kern \o wrem \o fl[Len(chunks)] = Seg(0, sent - Len(srem))
AllBeforeEof == rpc = "eof" => (peer => Len(got) = sent)
CloseEnds == spc = "closing" ~> spc = "closed"
Delivered == (peer /\ spc = "closed") ~> (~peer \/ Len(got) = sent)
=============================================================================
