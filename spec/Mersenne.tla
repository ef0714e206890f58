------------------------------ MODULE Mersenne ------------------------------
(***************************************************************************)
(* Arithmetic modulo a Mersenne number p = 2^e - 1, for any e.  TLC's      *)
(* integers are 32-bit, so a residue is a little-endian sequence of        *)
(* 13-bit limbs: 5 limbs for e = 61, 10 for e = 127, 1 for e = 3 (GF(7)).  *)
(* The canonical form of a residue has value < p.                          *)
(*                                                                         *)
(* Every operator below has a complete definition in TLA+.  The class      *)
(* java/Mersenne.java overrides the expensive ones (big integers) only     *)
(* to make trace validation fast; MersenneTest.tla is evaluated with and   *)
(* without the override by setup and both results are compared.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB == 13
LBase == 8192
MLimbs(e) == (e + LB - 1) \div LB

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* digit i (1-based) of d, zero beyond its end *)
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

(* carry-propagate a sequence of non-negative numbers < 2^31 - 2^18 into m base-2^13 digits *)
RECURSIVE CarryFrom(_, _, _, _)
CarryFrom(s, i, c, m) ==
  IF i > m THEN <<>>
  ELSE LET v == Dig(s, i) + c
       IN <<v % LBase>> \o CarryFrom(s, i + 1, v \div LBase, m)
Carry(s, m) == CarryFrom(s, 1, 0, m)

(* d div 2^e and d mod 2^e, for digit sequences *)
ShiftR(d, e) ==
  LET q == e \div LB
      r == e % LB
      m == IF Len(d) > q THEN Len(d) - q ELSE 1
  IN [i \in 1..m |-> (Dig(d, i + q) \div Pow2(r)) + (((Dig(d, i + q + 1) % Pow2(r)) * Pow2(LB - r)) % LBase)]
LowBits(d, e) ==
  [i \in 1..MLimbs(e) |-> IF i * LB <= e THEN Dig(d, i) ELSE Dig(d, i) % Pow2(e - (i - 1) * LB)]

IsZeroDigits(d) == \A i \in 1..Len(d) : d[i] = 0
PDigits(e) == [i \in 1..MLimbs(e) |-> IF i * LB <= e THEN LBase - 1 ELSE Pow2(e - (i - 1) * LB) - 1]

(* canonical residue of a digit sequence *)
RECURSIVE MNorm(_, _)
MNorm(e, d) ==
  LET hi == ShiftR(d, e)
      lo == LowBits(d, e)
      m  == (IF Len(hi) > Len(lo) THEN Len(hi) ELSE Len(lo)) + 1
  IN IF IsZeroDigits(hi)
     THEN IF lo = PDigits(e) THEN [i \in 1..MLimbs(e) |-> 0] ELSE lo
     ELSE MNorm(e, Carry([i \in 1..m |-> Dig(hi, i) + Dig(lo, i)], m))

MZero(e) == [i \in 1..MLimbs(e) |-> 0]
MOne(e)  == [i \in 1..MLimbs(e) |-> IF i = 1 THEN 1 ELSE 0]
MIsCanon(e, a) == Len(a) = MLimbs(e) /\ a = MNorm(e, a)

MAdd(e, a, b) == MNorm(e, Carry([i \in 1..MLimbs(e) |-> a[i] + b[i]], MLimbs(e) + 1))
MNeg(e, a) == MNorm(e, [i \in 1..MLimbs(e) |-> PDigits(e)[i] - MNorm(e, a)[i]])
MSub(e, a, b) == MAdd(e, a, MNeg(e, b))

RECURSIVE SumProd(_, _, _, _)
SumProd(a, b, i, s) ==    \* sum of a[j]*b[s-j] over j = i..
  IF i > Len(a) THEN 0
  ELSE (IF s - i >= 1 /\ s - i <= Len(b) THEN a[i] * b[s - i] ELSE 0) + SumProd(a, b, i + 1, s)
MMul(e, a, b) ==
  LET m == Len(a) + Len(b) IN MNorm(e, Carry([s \in 1..m |-> SumProd(a, b, 1, s + 1)], m + 1))

RECURSIVE MPowRep(_, _, _)
MPowRep(e, a, k) == IF k = 0 THEN a ELSE MPowRep(e, MMul(e, a, a), k - 1)   \* a^(2^k)
RECURSIVE MPowOnes(_, _, _)
MPowOnes(e, a, k) ==      \* a^(2^k - 1)
  IF k = 0 THEN MOne(e) ELSE LET h == MPowOnes(e, a, k - 1) IN MMul(e, MMul(e, h, h), a)
(* a^(p-2) = a^(2^e - 3) = (a^(2^(e-2)-1))^4 * a *)
MInv(e, a) == LET h == MPowOnes(e, a, e - 2)
                  h2 == MMul(e, h, h)
              IN MMul(e, MMul(e, h2, h2), a)

MFromInt(e, i) ==         \* any TLC integer
  LET j == IF i < 0 THEN -i ELSE i
      d == <<j % LBase, (j \div LBase) % LBase, j \div (LBase * LBase)>>
  IN IF i < 0 THEN MNeg(e, MNorm(e, d)) ELSE MNorm(e, d)

RECURSIVE MDotFrom(_, _, _, _)
MDotFrom(e, cs, vs, i) ==
  IF i > Len(cs) THEN MZero(e) ELSE MAdd(e, MMul(e, cs[i], vs[i]), MDotFrom(e, cs, vs, i + 1))
MDot(e, cs, vs) == MDotFrom(e, cs, vs, 1)

(* Lagrange coefficients: f(x) = sum_j MLag(e, xs, x)[j] * f(xs[j]) for deg f < Len(xs);
   the evaluation points are TLC integers *)
RECURSIVE MProdInts(_, _, _, _, _)
MProdInts(e, xs, x, j, m) ==    \* product over m' >= m, m' # j of (x - xs[m'])
  IF m > Len(xs) THEN MOne(e)
  ELSE IF m = j THEN MProdInts(e, xs, x, j, m + 1)
  ELSE MMul(e, MFromInt(e, x - xs[m]), MProdInts(e, xs, x, j, m + 1))
MLag(e, xs, x) ==
  [j \in 1..Len(xs) |-> MMul(e, MProdInts(e, xs, x, j, 1), MInv(e, MProdInts(e, xs, xs[j], j, 1)))]

(* value at the integer point x of the polynomial of degree < Len(xs) through (xs[j], ys[j]) *)
MInterp(e, xs, ys, x) == MDot(e, MLag(e, xs, x), ys)

(* weights giving the coefficient of x^(Len(xs)-1) of that polynomial *)
MLeadW(e, xs) == [j \in 1..Len(xs) |-> MInv(e, MProdInts(e, xs, xs[j], j, 1))]

(* base^k for a small non-negative k (0^0 = 1) *)
RECURSIVE MPow(_, _, _)
MPow(e, a, k) == IF k = 0 THEN MOne(e) ELSE MMul(e, a, MPow(e, a, k - 1))

(* the same with the points 1, 2, ..., Len(ys) *)
MAt(e, ys, x) == MInterp(e, [j \in 1..Len(ys) |-> j], ys, x)
(* the values at 1, 2, ... lie on a polynomial of degree at most d *)
MDegLe(e, ys, d) ==
  IF d < 0 THEN \A j \in 1..Len(ys) : ys[j] = MZero(e)
  ELSE LET h == SubSeq(ys, 1, d + 1)
       IN \A j \in (d + 2)..Len(ys) : ys[j] = MAt(e, h, j)

(* concatenation of a sequence of sequences; no two elements (digit sequences) equal *)
RECURSIVE MFlat(_)
MFlat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o MFlat(Tail(ss))
MDistinct(s) == \A i \in 1..Len(s), j \in 1..Len(s) : i # j => s[i] # s[j]

(* rank of a matrix, given as a sequence of rows of equal length *)
RECURSIVE MRankFrom(_, _, _)
MRankFrom(e, rows, col) ==
  IF Len(rows) = 0 \/ col > Len(rows[1]) THEN 0
  ELSE IF \A i \in 1..Len(rows) : rows[i][col] = MZero(e) THEN MRankFrom(e, rows, col + 1)
  ELSE LET pv == CHOOSE i \in 1..Len(rows) : rows[i][col] # MZero(e)
           iv == MInv(e, rows[pv][col])
           idx == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : i # pv)
           red(i) == LET f == MMul(e, rows[i][col], iv)
                     IN [j \in 1..Len(rows[i]) |-> MSub(e, rows[i][j], MMul(e, f, rows[pv][j]))]
       IN 1 + MRankFrom(e, [i \in 1..Len(idx) |-> red(idx[i])], col + 1)
MRank(e, rows) == MRankFrom(e, rows, 1)

(* the value itself; the override makes TLC evaluate all of it once and for all *)
MDeep(v) == v
=============================================================================