-------------------------------- MODULE Msg --------------------------------
(***************************************************************************)
(* Typed messages.  Each direction is a queue of typed values; a receive   *)
(* of the type at the head gives that value.  A receiver that is told of   *)
(* more than LIMIT elements refuses, having taken nothing but the sizes    *)
(* from the connection and room for none of the elements.                  *)
(* Announced sizes may exceed TLC's integers: they are pairs <<q, r>> that *)
(* stand for q * 2^25 + r.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
Unit == 33554432
Small(x) == x[1] = 0 \/ (x[1] = 1 /\ x[2] = 0)         \* at most 2^25
Val(x) == (x[1] * Unit) + x[2]
(* LIMIT is at most 2^25 *)
VecTooLong(limit, s) == ~Small(s) \/ Val(s) > limit
Zero(x) == x = <<0, 0>>
MatTooLarge(limit, r, c) ==
  ~Zero(r) /\ ~Zero(c) /\ (~Small(r) \/ ~Small(c) \/ Val(r) > limit \div Val(c))
=============================================================================
