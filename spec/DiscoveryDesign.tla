--------------------------- MODULE DiscoveryDesign ---------------------------
(***************************************************************************)
(* The discovery protocol: N - 1 clients connect in any order and announce *)
(* an id; the server accepts them all, reads the announcements in the      *)
(* order of the connections, and refuses or sends everybody the table.  A  *)
(* client may leave before it has announced itself.  Ids are arbitrary:    *)
(* N stands for any out of range.  Client c has port 100 + c and host c.   *)
(***************************************************************************)
EXTENDS Net
CONSTANT N
VARIABLES me, ids, cst, arrived, sst, told, sent, got
vars == <<me, ids, cst, arrived, sst, told, sent, got>>
Clients == 1..(N - 1)
Init == /\ me \in 0..N /\ ids \in [Clients -> 0..N]
        /\ cst = [c \in Clients |-> "off"] /\ arrived = <<>> /\ sst = "accept" /\ told = 0 /\ sent = 0
        /\ got = [p \in 0..(N - 1) |-> <<>>]
Connect(c) == /\ cst[c] = "off" /\ sst = "accept" /\ cst' = [cst EXCEPT ![c] = "connected"]
              /\ UNCHANGED <<me, ids, arrived, sst, told, sent, got>>
Announce(c) == /\ cst[c] = "connected" /\ cst' = [cst EXCEPT ![c] = "announced"]
               /\ UNCHANGED <<me, ids, arrived, sst, told, sent, got>>
Leave(c) == /\ cst[c] = "connected" /\ cst' = [cst EXCEPT ![c] = "left"]
            /\ UNCHANGED <<me, ids, arrived, sst, told, sent, got>>
In(c) == \E i \in 1..Len(arrived) : arrived[i] = c
Accept == /\ sst = "accept" /\ me < N
          /\ IF Len(arrived) = N - 1 THEN sst' = "collect" /\ UNCHANGED arrived
             ELSE \E c \in Clients : cst[c] # "off" /\ ~In(c) /\ arrived' = Append(arrived, c) /\ UNCHANGED sst
          /\ UNCHANGED <<me, ids, cst, told, sent, got>>
RefuseSelf == sst = "accept" /\ me >= N /\ sst' = "refused" /\ UNCHANGED <<me, ids, cst, arrived, told, sent, got>>
Seen == {ids[arrived[i]] : i \in 1..told} \cup {me}
Collect ==
  /\ sst = "collect"
  /\ IF told = N - 1 THEN sst' = "send" /\ UNCHANGED told
     ELSE LET c == arrived[told + 1] IN
          \/ /\ cst[c] = "announced"
             /\ IF ids[c] >= N \/ ids[c] \in Seen THEN sst' = "refused" /\ UNCHANGED told
                ELSE told' = told + 1 /\ UNCHANGED sst
          \/ cst[c] = "left" /\ sst' = "refused" /\ UNCHANGED told
  /\ UNCHANGED <<me, ids, cst, arrived, sent, got>>
Mine == [id |-> me, port |-> 100, host |-> 0]
Entry(c) == [id |-> ids[c], port |-> 100 + c, host |-> c]
Collected == [i \in 1..N |-> IF i - 1 = me THEN Mine ELSE Entry(CHOOSE c \in Clients : ids[c] = i - 1)]
Send ==
  /\ sst = "send"
  /\ IF sent = N - 1 THEN sst' = "done" /\ got' = [got EXCEPT ![0] = Collected] /\ UNCHANGED <<sent, cst>>
     ELSE LET c == arrived[sent + 1] IN
          sent' = sent + 1 /\ got' = [got EXCEPT ![c] = Collected] /\ cst' = [cst EXCEPT ![c] = "answered"] /\ UNCHANGED sst
  /\ UNCHANGED <<me, ids, arrived, told>>
EndOfStream(c) == /\ cst[c] = "announced" /\ sst = "refused" /\ cst' = [cst EXCEPT ![c] = "refused"]
                  /\ UNCHANGED <<me, ids, arrived, sst, told, sent, got>>
Over == sst \in {"refused", "done"}
Next == Accept \/ RefuseSelf \/ Collect \/ Send \/ (\E c \in Clients : Connect(c) \/ Announce(c) \/ Leave(c) \/ EndOfStream(c))
        \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept) /\ WF_vars(RefuseSelf) /\ WF_vars(Collect) /\ WF_vars(Send)
             /\ \A c \in Clients : WF_vars(Connect(c)) /\ WF_vars(Announce(c) \/ Leave(c)) /\ WF_vars(EndOfStream(c))
Anns == [i \in Clients |-> Entry(i)]
Good == Valid(N, Mine, Anns) /\ \A c \in Clients : cst[c] # "left"
SameTable == \A p, q \in 0..(N - 1) : got[p] # <<>> /\ got[q] # <<>> => got[p] = got[q]
RightTable == \A p \in 0..(N - 1) : got[p] # <<>> => Valid(N, Mine, Anns) /\ got[p] = Table(N, Mine, Anns) /\ Consistent(me, got[p])
Refusal == sst = "refused" => ~Good
Answered == <>(Over /\ (me < N => \A c \in Clients : cst[c] \in {"answered", "refused", "left"}))
=============================================================================
