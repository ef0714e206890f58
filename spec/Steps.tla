-------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* Protocols as chains of steps over one context.  A chain is evaluated    *)
(* step by step: every step runs once, on the context its predecessors     *)
(* left, and gives the next one; the last one gives the result.  A step    *)
(* that fails ends the evaluation; a step may evaluate another chain.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
M == 1009
(* plan[i + 1] = <<a, b, fails, nested>>: what step i of the program does *)
RECURSIVE Chain(_, _, _, _, _)
Chain(plan, left, carry, base, st) ==        \* st: [value, log, ok, r]
  LET p == plan[base + 1]
      s0 == [st EXCEPT !.log = Append(@, <<IF left = 0 THEN "last" ELSE "step", base, carry, st.value, 1>>)]
  IN IF p[3] = 1 THEN [s0 EXCEPT !.ok = FALSE]
     ELSE IF left = 0 THEN LET v == (st.value + 1) % M IN [s0 EXCEPT !.value = v, !.r = (carry * 7 + v) % M]
     ELSE LET s1 == [s0 EXCEPT !.value = (st.value * p[1] + p[2]) % M]
              s2 == IF p[4] < 0 THEN s1 ELSE Chain(plan, p[4], s1.value, Len(plan) - 1 - p[4], s1)
              c == IF p[4] < 0 THEN carry ELSE (carry + s2.r) % M
          IN IF ~s2.ok THEN s2
             ELSE Chain(plan, left - 1, (c * 3 + s2.value) % M, base + 1, s2)
Evaluate(plan, len, carry) == Chain(plan, len, carry, 0, [value |-> 1, log |-> <<>>, ok |-> TRUE, r |-> -1])
=============================================================================
