-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The rings the library computes in.  A ring is a record:                 *)
(*   [k |-> "M", e |-> e]   the integers modulo 2^e - 1 (a field when that *)
(*                          is prime: e = 3, 5, 7, 13, 61, 127)            *)
(*   [k |-> "Z", e |-> K]   the integers modulo 2^K                        *)
(* Elements are canonical little-endian sequences of 13-bit limbs, see     *)
(* Mersenne.tla.  On top: byte and text encodings, vectors (sequences),    *)
(* matrices [r, c, d] (d in row-major order) and polynomials (sequences of *)
(* coefficients without leading zeros; the zero polynomial is <<0>>).      *)
(***************************************************************************)
EXTENDS Mersenne, FiniteSets

IsFieldRing(R) == R.k = "M"
RZero(R) == MZero(R.e)
ROne(R)  == MOne(R.e)
RNorm(R, d) == IF R.k = "M" THEN MNorm(R.e, d) ELSE LowBits(d, R.e)      \* d: proper digits
RAdd(R, a, b) == IF R.k = "M" THEN MAdd(R.e, a, b)
                 ELSE LowBits(Carry([i \in 1..MLimbs(R.e) |-> a[i] + b[i]], MLimbs(R.e) + 1), R.e)
RNeg(R, a) == IF R.k = "M" THEN MNeg(R.e, a)
              ELSE LowBits(Carry([i \in 1..MLimbs(R.e) |-> PDigits(R.e)[i] - a[i] + (IF i = 1 THEN 1 ELSE 0)], MLimbs(R.e) + 1), R.e)
RSub(R, a, b) == IF R.k = "M" THEN MSub(R.e, a, b) ELSE RAdd(R, a, RNeg(R, b))
RMul(R, a, b) == IF R.k = "M" THEN MMul(R.e, a, b)
                 ELSE LET m == MLimbs(R.e) IN LowBits(Carry([s \in 1..m |-> SumProd(a, b, 1, s + 1)], m), R.e)
ROdd(a) == a[1] % 2 = 1
RIsUnit(R, a) == IF R.k = "M" THEN a # RZero(R) ELSE ROdd(a)
RSmall(R, i) == IF R.k = "M" THEN MFromInt(R.e, i) ELSE LowBits(<<i % LBase, i \div LBase>>, R.e)   \* i >= 0
(* the inverse modulo 2^K, doubling the number of right bits each time *)
RECURSIVE Hensel(_, _, _, _)
Hensel(R, a, z, bits) ==
  IF bits >= R.e THEN z ELSE Hensel(R, a, RMul(R, z, RSub(R, RSmall(R, 2), RMul(R, a, z))), 2 * bits)
RInv(R, a) == IF R.k = "M" THEN MInv(R.e, a) ELSE Hensel(R, a, ROne(R), 1)
RDiv(R, a, b) == RMul(R, a, RInv(R, b))

---------------------------------------------------------------------------
(* encodings *)
ByteAt(bs, i) == IF i <= Len(bs) THEN bs[i] ELSE 0
BytesToDigits(bs) ==    \* little-endian bytes
  [i \in 1..((8 * Len(bs)) \div LB + 1) |->
     LET s == LB * (i - 1)
         q == s \div 8
     IN ((ByteAt(bs, q + 1) + 256 * ByteAt(bs, q + 2) + 65536 * ByteAt(bs, q + 3)) \div Pow2(s % 8)) % LBase]
RFromBytes(R, bs) == RNorm(R, BytesToDigits(bs))
RToBytes(a, n) == [i \in 1..n |->
  LET s == 8 * (i - 1)
      q == s \div LB
  IN ((Dig(a, q + 1) + LBase * Dig(a, q + 2)) \div Pow2(s % LB)) % 256]
RByteSize(R) == IF R.k = "Z" THEN (R.e + 7) \div 8 ELSE IF R.e <= 5 THEN 1 ELSE IF R.e = 61 THEN 8 ELSE 16
RECURSIVE RFromByteSeq(_, _)
RFromByteSeq(R, bs) ==   \* consecutive encodings
  IF Len(bs) < RByteSize(R) THEN <<>>
  ELSE <<RFromBytes(R, SubSeq(bs, 1, RByteSize(R)))>> \o RFromByteSeq(R, SubSeq(bs, RByteSize(R) + 1, Len(bs)))
RECURSIVE RToByteSeq(_, _)
RToByteSeq(R, v) == IF v = <<>> THEN <<>> ELSE RToBytes(Head(v), RByteSize(R)) \o RToByteSeq(R, Tail(v))

(* text, as character codes *)
RECURSIVE DivSmallFrom(_, _, _, _)
DivSmallFrom(d, k, i, rem) ==    \* <<quotient digits high to low, remainder>>
  IF i = 0 THEN <<<<>>, rem>>
  ELSE LET v == rem * LBase + d[i]
           t == DivSmallFrom(d, k, i - 1, v % k)
       IN <<<<v \div k>> \o t[1], t[2]>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE DecDigits(_)
DecDigits(d) == IF IsZeroDigits(d) THEN <<>>
                ELSE LET t == DivSmallFrom(d, 10, Len(d), 0) IN DecDigits(Rev(t[1])) \o <<48 + t[2]>>
RText(a) == IF IsZeroDigits(a) THEN <<48>> ELSE DecDigits(a)

RECURSIVE NumFold(_, _, _, _)
NumFold(ds, base, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE NumFold(ds, base, i + 1, Carry([j \in 1..Len(acc) |-> acc[j] * base + (IF j = 1 THEN ds[i] ELSE 0)], Len(acc) + 1))
DigitsOf(ds, base) == NumFold(ds, base, 1, <<0>>)      \* big-endian digits in a base <= 256
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
(* base-64 text to bytes; <<FALSE, <<>>>> when malformed *)
RECURSIVE B64Bytes(_, _)
B64Bytes(s, i) ==       \* whole groups of four, the last of which may end in = or ==
  IF i > Len(s) THEN <<TRUE, <<>>>>
  ELSE LET v(j) == B64Val(s[i + j])
           last == i + 4 > Len(s)
       IN IF v(0) < 0 \/ v(1) < 0 THEN <<FALSE, <<>>>>
          ELSE IF last /\ s[i + 3] = 61
               THEN IF s[i + 2] = 61 THEN <<TRUE, <<v(0) * 4 + v(1) \div 16>>>>
                    ELSE IF v(2) < 0 THEN <<FALSE, <<>>>>
                    ELSE <<TRUE, <<v(0) * 4 + v(1) \div 16, (v(1) % 16) * 16 + v(2) \div 4>>>>
               ELSE IF v(2) < 0 \/ v(3) < 0 THEN <<FALSE, <<>>>>
                    ELSE LET t == B64Bytes(s, i + 4)
                         IN IF ~t[1] THEN t
                            ELSE <<TRUE, <<v(0) * 4 + v(1) \div 16, (v(1) % 16) * 16 + v(2) \div 4, (v(2) % 4) * 64 + v(3)>> \o t[2]>>
(* a text in one of the four bases: [ok |-> well formed, d |-> its value as digits] *)
ParseText(s, base) ==
  IF base = 64
  THEN IF Len(s) % 4 # 0 THEN [ok |-> FALSE, d |-> <<0>>]
       ELSE LET t == B64Bytes(s, 1) IN [ok |-> t[1], d |-> IF t[1] THEN DigitsOf(t[2], 256) ELSE <<0>>]
  ELSE LET val(c) == IF base = 16 THEN HexVal(c) ELSE IF c - 48 \in 0..(base - 1) THEN c - 48 ELSE -1
           ok == (base = 16 => Len(s) % 2 = 0) /\ \A i \in 1..Len(s) : val(s[i]) >= 0
       IN [ok |-> ok, d |-> IF ok THEN DigitsOf([i \in 1..Len(s) |-> val(s[i])], base) ELSE <<0>>]
(* the value of a text is within the representation of the ring *)
FitsBits(d, n) == IsZeroDigits(ShiftR(d, n))

---------------------------------------------------------------------------
(* vectors *)
RVAdd(R, a, b) == [i \in 1..Len(a) |-> RAdd(R, a[i], b[i])]
RVSub(R, a, b) == [i \in 1..Len(a) |-> RSub(R, a[i], b[i])]
RVMul(R, a, b) == [i \in 1..Len(a) |-> RMul(R, a[i], b[i])]
RVScale(R, s, a) == [i \in 1..Len(a) |-> RMul(R, s, a[i])]
RECURSIVE RSumFrom(_, _, _)
RSumFrom(R, a, i) == IF i > Len(a) THEN RZero(R) ELSE RAdd(R, a[i], RSumFrom(R, a, i + 1))
RVSum(R, a) == RSumFrom(R, a, 1)
RVDot(R, a, b) == RVSum(R, RVMul(R, a, b))

(* matrices *)
MatAt(A, i, j) == A.d[(i - 1) * A.c + j]
MatOf(r, c, f(_, _)) == [r |-> r, c |-> c, d |-> [k \in 1..(r * c) |-> f(((k - 1) \div c) + 1, ((k - 1) % c) + 1)]]
MatRows(A) == [i \in 1..A.r |-> SubSeq(A.d, (i - 1) * A.c + 1, i * A.c)]
MatCol(A, j) == [i \in 1..A.r |-> MatAt(A, i, j)]
RECURSIVE FlatRows(_)
FlatRows(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o FlatRows(Tail(rows))
MatFromRows(rows, c) == [r |-> Len(rows), c |-> c, d |-> FlatRows(rows)]
MatTr(A) == MatOf(A.c, A.r, LAMBDA i, j : MatAt(A, j, i))
MatId(R, n) == MatOf(n, n, LAMBDA i, j : IF i = j THEN ROne(R) ELSE RZero(R))
MatMul(R, A, B) ==
  LET rows == MatRows(A)
      cols == [j \in 1..B.c |-> MatCol(B, j)]
  IN MatOf(A.r, B.c, LAMBDA i, j : RVDot(R, rows[i], cols[j]))

(* reduced row echelon form *)
RECURSIVE RrefFrom(_, _, _, _)
RrefFrom(R, rows, k, col) ==      \* rows 1..k-1 are done, columns 1..col-1 are done
  IF k > Len(rows) \/ (rows # <<>> /\ col > Len(rows[1])) THEN rows
  ELSE LET cand == {i \in k..Len(rows) : rows[i][col] # RZero(R)}
       IN IF cand = {} THEN RrefFrom(R, rows, k, col + 1)
          ELSE LET pv == CHOOSE i \in cand : \A j \in cand : i <= j
                   iv == RInv(R, rows[pv][col])
                   top == MDeep(RVScale(R, iv, rows[pv]))
                   ord(i) == IF i = k THEN top ELSE IF i = pv THEN rows[k] ELSE rows[i]
                   red(i) == IF i = k THEN top ELSE LET q == ord(i) IN RVSub(R, q, RVScale(R, q[col], top))
               IN RrefFrom(R, MDeep([i \in 1..Len(rows) |-> red(i)]), k + 1, col + 1)
Rref(R, rows) == RrefFrom(R, rows, 1, 1)
IsZeroRow(R, row) == \A j \in 1..Len(row) : row[j] = RZero(R)
RankOf(R, rows) == LET red == MDeep(Rref(R, rows)) IN Cardinality({i \in 1..Len(rows) : ~IsZeroRow(R, red[i])})

(* polynomials *)
RECURSIVE PTrim(_, _)
PTrim(R, c) == IF Len(c) = 0 THEN <<RZero(R)>>
               ELSE IF Len(c) > 1 /\ c[Len(c)] = RZero(R) THEN PTrim(R, SubSeq(c, 1, Len(c) - 1)) ELSE c
PCoef(R, p, i) == IF i <= Len(p) THEN p[i] ELSE RZero(R)
PMax(a, b) == IF a > b THEN a ELSE b
PAdd(R, p, q) == PTrim(R, [i \in 1..PMax(Len(p), Len(q)) |-> RAdd(R, PCoef(R, p, i), PCoef(R, q, i))])
PSub(R, p, q) == PTrim(R, [i \in 1..PMax(Len(p), Len(q)) |-> RSub(R, PCoef(R, p, i), PCoef(R, q, i))])
RECURSIVE PConv(_, _, _, _, _)
PConv(R, p, q, s, i) == IF i > Len(p) THEN RZero(R)
                        ELSE RAdd(R, IF s - i \in 1..Len(q) THEN RMul(R, p[i], q[s - i]) ELSE RZero(R), PConv(R, p, q, s, i + 1))
PMul(R, p, q) == PTrim(R, [s \in 1..(Len(p) + Len(q) - 1) |-> PConv(R, p, q, s + 1, 1)])
PIsZero(R, p) == p = <<RZero(R)>>
RECURSIVE PDivFrom(_, _, _, _)
PDivFrom(R, d, q, r) ==
  IF PIsZero(R, r) \/ Len(r) < Len(d) THEN <<q, r>>
  ELSE LET sh == Len(r) - Len(d)
           f == RDiv(R, r[Len(r)], d[Len(d)])
           t == [i \in 1..(sh + 1) |-> IF i = sh + 1 THEN f ELSE RZero(R)]
       IN PDivFrom(R, d, MDeep(PAdd(R, q, t)), MDeep(PSub(R, r, PMul(R, t, d))))
PDivMod(R, p, d) == PDivFrom(R, d, <<RZero(R)>>, p)
RECURSIVE PEvalFrom(_, _, _, _)
PEvalFrom(R, p, x, i) == IF i > Len(p) THEN RZero(R) ELSE RAdd(R, p[i], RMul(R, x, PEvalFrom(R, p, x, i + 1)))
PEval(R, p, x) == PEvalFrom(R, p, x, 1)

(* value at x of the polynomial of degree < Len(xs) through the points (xs[i], ys[i]); xs distinct *)
RECURSIVE ProdDiff(_, _, _, _, _)
ProdDiff(R, xs, x, j, m) == IF m > Len(xs) THEN ROne(R)
                            ELSE IF m = j THEN ProdDiff(R, xs, x, j, m + 1)
                            ELSE RMul(R, RSub(R, x, xs[m]), ProdDiff(R, xs, x, j, m + 1))
RLag(R, xs, x) == [j \in 1..Len(xs) |-> RDiv(R, ProdDiff(R, xs, x, j, 1), ProdDiff(R, xs, xs[j], j, 1))]
RInterp(R, xs, ys, x) == RVDot(R, RLag(R, xs, x), ys)
(* the points lie on a polynomial of degree at most d *)
RDegLe(R, xs, ys, d) ==
  LET k == d + 1
      hx == SubSeq(xs, 1, k)
      hy == SubSeq(ys, 1, k)
  IN \A j \in (k + 1)..Len(xs) : ys[j] = RInterp(R, hx, hy, xs[j])
=============================================================================
