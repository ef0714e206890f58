------------------------------ MODULE MsgTrace ------------------------------
(* Histories of typed messages <<op, direction, type, value>>, and answers to announced sizes. *)
EXTENDS Msg, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, q
vars == <<run, l, q>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Evs == R.ev
E == Evs[l]
Init == l = 1 /\ run \in 1..Len(TraceRuns) /\ q = <<<<>>, <<>>>>
D == E[2] + 1
Room == 65536
(* a receive of announced sizes: [dims, read, most, ok, got dims, data, sent data] *)
Announced ==
  LET x == R.ann
      vec == x.kind = "V"
      n == IF vec THEN Val(x.dims[1]) ELSE Val(x.dims[1]) * Val(x.dims[2])
      head == IF vec THEN 4 ELSE 8
  IN IF IF vec THEN VecTooLong(x.limit, x.dims[1]) ELSE MatTooLarge(x.limit, x.dims[1], x.dims[2])
     THEN x.ok = 0 /\ x.read = head /\ x.most <= Room
     ELSE IF ~vec /\ (Zero(x.dims[1]) \/ Zero(x.dims[2])) THEN x.ok \in {0, 1} /\ x.read = head /\ x.most <= Room
     ELSE /\ x.ok = 1 /\ x.got = x.dims /\ x.read = head + (n * x.bytes)
          /\ x.data = x.sent
Step ==
  /\ l <= Len(Evs) /\ l' = l + 1 /\ UNCHANGED run
  /\ CASE E[1] # "announced" /\ E[4] = "" -> UNCHANGED q        \* a std::vector of no elements is no bytes at all
       [] E[1] = "s" -> q' = [q EXCEPT ![D] = Append(@, <<E[3], E[4]>>)]
       [] E[1] = "r" -> q[D] # <<>> /\ (Head(q[D]) = <<E[3], E[4]>>) = TRUE /\ q' = [q EXCEPT ![D] = Tail(@)]
       [] E[1] = "announced" -> (Announced = TRUE) /\ UNCHANGED q
       [] OTHER -> FALSE /\ UNCHANGED q
Next == Step \/ (l = Len(Evs) + 1 /\ R.done = 1 /\ UNCHANGED vars)
=============================================================================
