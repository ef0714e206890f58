------------------------------ MODULE NetDesign ------------------------------
(***************************************************************************)
(* Creation of a network: every party listens for the parties with higher  *)
(* ids and connects to those with lower ids, which it tells its id.  A     *)
(* party starts at any time; a connection attempt before the other party   *)
(* listens is repeated.  Connections are accepted in any order.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, BACKLOG, BYID      \* BYID: store a connection under the announced id (FALSE: in order of arrival)
Parties == 0..(N - 1)
VARIABLES started, listening, next, conns, chan, served, reading
vars == <<started, listening, next, conns, chan, served, reading>>
(* conns: client -> set of records of connections waiting in a server's queue or accepted; *)
NoOne == -1
Init == /\ started = {} /\ listening = {} /\ next = [p \in Parties |-> 0] /\ conns = {}
        /\ chan = [p \in Parties |-> [q \in Parties |-> NoOne]] /\ served = [p \in Parties |-> 0]
        /\ reading = [p \in Parties |-> NoOne]
Start(p) == /\ p \notin started /\ started' = started \cup {p}
            /\ chan' = [chan EXCEPT ![p][p] = p]
            /\ UNCHANGED <<listening, next, conns, served, reading>>
Expected(p) == N - p - 1
Listen(p) == /\ p \in started /\ p \notin listening /\ served[p] = 0 /\ Expected(p) > 0
             /\ listening' = listening \cup {p} /\ UNCHANGED <<started, next, conns, chan, served, reading>>
Queue(p) == {c \in conns : c.to = p /\ c.st = "queued"}
Connect(p) ==
  LET q == next[p] IN
  /\ p \in started /\ q < p /\ q \in listening /\ Cardinality(Queue(q)) <= BACKLOG
  /\ ~ \E c \in conns : c.from = p /\ c.to = q
  /\ conns' = conns \cup {[from |-> p, to |-> q, st |-> "queued", id |-> FALSE]}
  /\ UNCHANGED <<started, listening, next, chan, served, reading>>
Announce(p) ==          \* the client sends its id and goes on
  LET q == next[p] IN
  \E c \in conns : /\ c.from = p /\ c.to = q /\ ~c.id
                   /\ conns' = (conns \ {c}) \cup {[c EXCEPT !.id = TRUE]}
                   /\ chan' = [chan EXCEPT ![p][q] = q]
                   /\ next' = [next EXCEPT ![p] = q + 1]
                   /\ UNCHANGED <<started, listening, served, reading>>
Accept(p) ==
  /\ p \in listening /\ reading[p] = NoOne
  /\ \E c \in Queue(p) : /\ conns' = (conns \ {c}) \cup {[c EXCEPT !.st = "accepted"]}
                         /\ reading' = [reading EXCEPT ![p] = c.from]
  /\ UNCHANGED <<started, listening, next, chan, served>>
ReadId(p) ==
  /\ reading[p] # NoOne
  /\ \E c \in conns : c.from = reading[p] /\ c.to = p /\ c.id
  /\ chan' = [chan EXCEPT ![p][IF BYID THEN reading[p] ELSE p + 1 + served[p]] = reading[p]]
  /\ served' = [served EXCEPT ![p] = @ + 1]
  /\ reading' = [reading EXCEPT ![p] = NoOne]
  /\ listening' = (IF served[p] + 1 = Expected(p) THEN listening \ {p} ELSE listening)
  /\ UNCHANGED <<started, next, conns>>
Finished(p) == p \in started /\ next[p] = p /\ served[p] = Expected(p)
AllDone == \A p \in Parties : Finished(p)
PNext(p) == Listen(p) \/ Connect(p) \/ Announce(p) \/ Accept(p) \/ ReadId(p)
Next == (\E p \in Parties : Start(p) \/ PNext(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Parties : WF_vars(Start(p)) /\ WF_vars(Listen(p)) /\ WF_vars(Connect(p))
             /\ WF_vars(Announce(p)) /\ WF_vars(Accept(p)) /\ WF_vars(ReadId(p))
(* every entry leads to the party it is named after *)
RightEntry == \A p, q \in Parties : chan[p][q] \in {NoOne, q}
Complete == \A p \in Parties : Finished(p) => \A q \in Parties : chan[p][q] = q
NoRefusal == \A c \in conns : c.st = "queued" => c.to \in listening       \* nobody waits at a closed door
Terminates == <>AllDone
=============================================================================
