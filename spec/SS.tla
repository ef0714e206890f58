--------------------------------- MODULE SS ---------------------------------
(***************************************************************************)
(* Secret sharing over a ring R (Ring.tla).                                *)
(*   Shamir:   shares are the values of a polynomial of degree <= t with   *)
(*             the secret at 0.                                            *)
(*   Packed:   secrets at 0, -1, -2, ... (or at chosen points).            *)
(*   Additive: shares sum to the secret.                                   *)
(* Fresh(...) is what can be said of the randomness of recorded sharings:  *)
(* over a small ring every combination of the free values occurs; over a   *)
(* large one the free values of successive sharings are distinct, no bit   *)
(* of them is stuck and, position by position, they are linearly and       *)
(* affinely independent, i.e. nothing beyond the secret is fixed.          *)
(***************************************************************************)
EXTENDS Ring
Canon(R, n) == [i \in 1..n |-> RSmall(R, i)]
NegPt(R, i) == RNeg(R, RSmall(R, i))
Slots(R, k) == [i \in 1..k |-> NegPt(R, i - 1)]
InterpAt(R, xs, ys, zs) == [i \in 1..Len(zs) |-> RInterp(R, xs, ys, zs[i])]
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

BitOf(a, i) == (a[(i \div LB) + 1] \div Pow2(i % LB)) % 2
Order(R) == IF R.k = "M" THEN Pow2(R.e) - 1 ELSE Pow2(R.e)
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
ColOf(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
(* rows: one sequence of f free values per sharing *)
Fresh(R, rows, f) ==
  f = 0 \/
  IF R.e <= 5
  THEN /\ f <= 4 => (IPow(Order(R), f) * 18 <= Len(rows) => Cardinality({rows[i] : i \in 1..Len(rows)}) = IPow(Order(R), f))
       /\ Order(R) * 18 <= Len(rows) => \A j \in 1..f : Cardinality({rows[i][j] : i \in 1..Len(rows)}) = Order(R)
  ELSE LET all == FlatRows(rows)
       IN /\ R.e >= 60 => Distinct(all)
          /\ Len(rows) >= 60 => \A j \in 1..f, b \in 0..(R.e - 1) : {BitOf(rows[i][j], b) : i \in 1..Len(rows)} = {0, 1}
          /\ (R.k = "M" /\ Len(rows) > f) =>
               /\ RankOf(R, SubSeq(rows, 1, f)) = f
               /\ RankOf(R, [i \in 1..f |-> RVSub(R, rows[i + 1], rows[1])]) = f

---------------------------------------------------------------------------
(* the decoding algorithms, as in the code: error detection, and Berlekamp-Welch error correction *)
Detect(R, xs, ys, t, pos) ==
  LET hx == SubSeq(xs, 1, t + 1)
      hy == SubSeq(ys, 1, t + 1)
  IN IF \A k \in (t + 2)..(2 * t + 1) : RInterp(R, hx, hy, xs[k]) = ys[k] THEN <<RInterp(R, hx, hy, pos)>> ELSE <<>>
RECURSIVE XPow(_, _, _)
XPow(R, x, k) == IF k = 0 THEN ROne(R) ELSE RMul(R, x, XPow(R, x, k - 1))
(* the key equation y*E(x) = Q(x), deg E = e and monic, deg Q < n - e: n unknowns, n equations *)
KeyRow(R, x, y, e, n) ==
  [j \in 1..n |-> IF j <= e THEN RMul(R, y, XPow(R, x, j - 1)) ELSE RNeg(R, XPow(R, x, j - e - 1))]
  \o <<RNeg(R, RMul(R, y, XPow(R, x, e)))>>
RECURSIVE BWFrom(_, _, _, _)
BWFrom(R, xs, ys, e) ==
  LET n == Len(xs)
      red == Rref(R, [i \in 1..n |-> KeyRow(R, xs[i], ys[i], e, n)])
      lhs == [i \in 1..n |-> SubSeq(red[i], 1, n)]
  IN IF RankOf(R, lhs) = n
     THEN LET sol == [i \in 1..n |-> red[i][n + 1]]
              E == PTrim(R, [i \in 1..(e + 1) |-> IF i = e + 1 THEN ROne(R) ELSE sol[i]])
              Q == PTrim(R, SubSeq(sol, e + 1, n))
              d == PDivMod(R, Q, E)
          IN IF PIsZero(R, d[2]) THEN <<d[1], E>> ELSE <<>>
     ELSE IF e = 0 THEN <<>> ELSE BWFrom(R, xs, ys, e - 1)
BerlekampWelch(R, xs, ys, t) == BWFrom(R, xs, ys, t)
Wrong(R, xs, ys, p) == {i \in 1..Len(xs) : PEval(R, p, xs[i]) # ys[i]}

(* what reconstruction promises, whatever algorithm is behind it *)
DetectOk(R, xs, ys, t, truth, pos, ok, res) ==
  LET w == Wrong(R, SubSeq(xs, 1, 2 * t + 1), SubSeq(ys, 1, 2 * t + 1), truth)
  IN IF w = {} THEN ok = 1 /\ res = PEval(R, truth, pos)
     ELSE Cardinality(w) <= t => (ok = 0 \/ res = PEval(R, truth, pos))
CorrectOk(R, xs, ys, t, truth, ok, p, E) ==
  LET n == 3 * t + 1
      sx == SubSeq(xs, 1, n)
      sy == SubSeq(ys, 1, n)
      w == Wrong(R, sx, sy, truth)
  IN IF Cardinality(w) <= t
     THEN /\ ok = 1 /\ p = truth
          /\ {i \in 1..n : PEval(R, E, sx[i]) = RZero(R)} = w
     ELSE ok = 1 => Cardinality(Wrong(R, sx, sy, p)) <= t
=============================================================================
