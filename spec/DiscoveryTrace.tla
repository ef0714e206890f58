--------------------------- MODULE DiscoveryTrace ---------------------------
(***************************************************************************)
(* Acceptance of recorded discoveries: [p, "server"|"client", id, port],   *)
(* [p, "table", ok, own id, table], [p, "quit", bytes, id].  Line: n, me   *)
(* (the process of the server), hosts (process -> address), ev, blocked.   *)
(***************************************************************************)
EXTENDS Net, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
vars == <<run, l>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Evs == R.ev
E == Evs[l]
Init == l = 1 /\ run \in 1..Len(TraceRuns)
Idx(k) == {i \in 1..Len(Evs) : Evs[i][2] = k}
Clients == {Evs[i][1] : i \in Idx("client")}
Quitters == {Evs[i][1] : i \in Idx("quit")}
Entry(i) == [id |-> Evs[i][3], port |-> Evs[i][4], host |-> R.hosts[Evs[i][1] + 1]]
Server == CHOOSE i \in Idx("server") : TRUE
Anns == LET f[S \in SUBSET Idx("client")] == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN Append(f[S \ {x}], Entry(x))
        IN f[Idx("client")]
(* clients beyond n - 1 would wait for a server that is gone: the runs have exactly n - 1 clients, quitters included *)
Good == Quitters = {} /\ Valid(R.n, Entry(Server), Anns)
Right == LET t == Table(R.n, Entry(Server), Anns) IN [i \in 1..R.n |-> <<t[i].id, t[i].host, t[i].port>>]
OwnId(p) == LET i == CHOOSE i \in Idx("client") \cup Idx("server") : Evs[i][1] = p IN Evs[i][3]
Ret ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED run
  /\ CASE E[2] \in {"server", "client", "quit"} -> TRUE
       [] E[2] = "table" ->
            IF Good THEN E[3] = 1 /\ E[4] = OwnId(E[1]) /\ E[5] = Right
            ELSE E[3] = 0
       [] OTHER -> FALSE
Done ==
  /\ l = Len(Evs) /\ R.trouble = "" /\ R.blocked = <<>> /\ R.listening = 0
  /\ Cardinality(Idx("table")) = Cardinality(Idx("server")) + Cardinality(Idx("client"))      \* everybody has an answer
  /\ UNCHANGED vars
Next == Ret \/ Done
=============================================================================
