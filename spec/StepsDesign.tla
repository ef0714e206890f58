----------------------------- MODULE StepsDesign -----------------------------
(***************************************************************************)
(* The evaluation as a machine with a stack of calls, against the meaning  *)
(* of a chain.                                                             *)
(***************************************************************************)
EXTENDS Steps
CONSTANT MAXLEN
VARIABLES plan, len, stack, value, log, ok, ret
vars == <<plan, len, stack, value, log, ok, ret>>
Ops == {<<2, 1, 0, -1>>, <<1, 5, 0, -1>>, <<1, 1, 1, -1>>, <<3, 2, 0, 0>>, <<1, 3, 0, 1>>}
Tail2 == {<< <<5, 1, 0, -1>>, <<1, 0, 0, -1>> >>, << <<1, 1, 1, -1>>, <<1, 0, 1, -1>> >>}     \* the nested chains
Init == /\ len \in 0..MAXLEN
        /\ \E p \in [1..(len + 1) -> Ops], t \in Tail2 : plan = p \o t
        /\ stack = << [left |-> len, carry |-> 4, base |-> 0, wait |-> FALSE] >>
        /\ value = 1 /\ log = <<>> /\ ok = TRUE /\ ret = -1
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
P == plan[Top.base + 1]
Next0(c) == [left |-> Top.left - 1, carry |-> (c * 3 + value) % M, base |-> Top.base + 1, wait |-> FALSE]
Enter ==       \* a step begins
  /\ stack # <<>> /\ ~Top.wait
  /\ log' = Append(log, <<IF Top.left = 0 THEN "last" ELSE "step", Top.base, Top.carry, value, 1>>)
  /\ IF P[3] = 1 THEN ok' = FALSE /\ stack' = <<>> /\ UNCHANGED <<value, ret>>           \* the failure passes through all callers
     ELSE IF Top.left = 0
     THEN LET v == (value + 1) % M IN value' = v /\ ret' = (Top.carry * 7 + v) % M /\ stack' = Rest /\ UNCHANGED ok
     ELSE /\ value' = (value * P[1] + P[2]) % M
          /\ UNCHANGED <<ok, ret>>
          /\ stack' = Rest \o << [Top EXCEPT !.wait = TRUE] >>
                      \o (IF P[4] < 0 THEN <<>> ELSE << [left |-> P[4], carry |-> (value * P[1] + P[2]) % M, base |-> Len(plan) - 1 - P[4], wait |-> FALSE] >>)
  /\ UNCHANGED <<plan, len>>
Leave ==       \* it ends and gives the next one
  /\ stack # <<>> /\ Top.wait
  /\ stack' = Append(Rest, Next0(IF P[4] < 0 THEN Top.carry ELSE (Top.carry + ret) % M))
  /\ UNCHANGED <<plan, len, value, log, ok, ret>>
Next == Enter \/ Leave \/ (stack = <<>> /\ UNCHANGED vars)
Result == LET e == Evaluate(plan, len, 4) IN
          stack = <<>> => /\ ok = e.ok /\ value = e.value /\ log = e.log /\ (ok => ret = e.r)
=============================================================================
