-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* Networks as their users see them.  Party p's connection to party j      *)
(* carries what p sends to j, in order, to j's connection to p; the        *)
(* connection of a party to itself gives back what was sent on it.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NewNet(n) == [q |-> [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |-> <<>>]], created |-> {}, open |-> {}]
Created(net, p) == [net EXCEPT !.created = @ \cup {p}]
Sent(net, p, j, v) == [net EXCEPT !.q[p][j] = Append(@, v)]
MayReceive(net, p, i, v) == net.q[i][p] # <<>> /\ Head(net.q[i][p]) = v
Received(net, p, i) == [net EXCEPT !.q[i][p] = Tail(@)]
(***************************************************************************)
(* Discovery.  anns is the sequence of announcements [id, port, host] of   *)
(* the clients in the order of their connections, me the server's own      *)
(* entry.  The table gives every id from 0 to n - 1 once.                  *)
(***************************************************************************)
Valid(n, me, anns) ==
  /\ me.id \in 0..(n - 1)
  /\ \A a \in 1..Len(anns) : anns[a].id \in 0..(n - 1) /\ anns[a].id # me.id
  /\ \A a, b \in 1..Len(anns) : a # b => anns[a].id # anns[b].id
Table(n, me, anns) ==     \* entry i + 1 is that of party i
  [i \in 1..n |-> IF i - 1 = me.id THEN me ELSE anns[CHOOSE a \in 1..Len(anns) : anns[a].id = i - 1]]
(* a table that a server may hand out, as a client with identity id accepts it *)
Consistent(id, table) ==
  LET n == Len(table) IN
  /\ id \in 0..(n - 1)
  /\ {table[i].id : i \in 1..n} = 0..(n - 1)
ById(table) == [i \in 1..Len(table) |-> table[CHOOSE k \in 1..Len(table) : table[k].id = i - 1]]
=============================================================================
