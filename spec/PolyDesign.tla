----------------------------- MODULE PolyDesign -----------------------------
(* Polynomials of Ring.tla over GF(7): all of degree <= 2 (by all of degree <= 1, or <= 2). *)
EXTENDS Ring
CONSTANT BIG
F == [k |-> "M", e |-> 3]
C(s) == {<<i>> : i \in s}
Polys(s, n) == {PTrim(F, f) : f \in [1..n -> C(s)]}
VARIABLES p, q
Init == p \in Polys(0..6, 3) /\ q \in (IF BIG THEN Polys({0, 1, 4, 6}, 3) ELSE Polys({0, 1, 4}, 2))
Next == FALSE /\ UNCHANGED <<p, q>>
PolyLaws ==
  /\ Len(p) > 1 => p[Len(p)] # <<0>>
  /\ \A x \in C(0..6) :
       /\ PEval(F, PAdd(F, p, q), x) = RAdd(F, PEval(F, p, x), PEval(F, q, x))
       /\ PEval(F, PSub(F, p, q), x) = RSub(F, PEval(F, p, x), PEval(F, q, x))
       /\ PEval(F, PMul(F, p, q), x) = RMul(F, PEval(F, p, x), PEval(F, q, x))
  /\ ~PIsZero(F, q) =>
       LET t == PDivMod(F, p, q)
       IN /\ PAdd(F, PMul(F, t[1], q), t[2]) = p
          /\ Len(t[2]) < Len(q) \/ PIsZero(F, t[2])
=============================================================================
