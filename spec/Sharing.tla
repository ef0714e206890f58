------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* Vectors of shares.  Party j's share is the value at the point j; the    *)
(* k slots of a packed sharing are the points 0, -1, ..., -(k-1).          *)
(* E is the exponent of the Mersenne prime (61 for the implementation's    *)
(* tp::FF, 3 or 5 for exhaustively explored designs).                      *)
(***************************************************************************)
EXTENDS Mersenne, FiniteSets, Sequences
CONSTANT E

Zero == MZero(E)
One == MOne(E)
Add(a, b) == MAdd(E, a, b)
Sub(a, b) == MSub(E, a, b)
Mul(a, b) == MMul(E, a, b)
Neg(a) == MNeg(E, a)
Int2F(i) == MFromInt(E, i)
Canon(a) == Len(a) = MLimbs(E) /\ MIsCanon(E, a)
AllCanon(s) == \A i \in 1..Len(s) : Canon(s[i])

Slot(i) == -(i - 1)
Slots(k) == [i \in 1..k |-> Slot(i)]
Pts(m) == [j \in 1..m |-> j]

(* value at x of the polynomial of degree < Len(ys) through (j, ys[j]) *)
At(ys, x) == MAt(E, ys, x)
SlotVals(ys, k) == [i \in 1..k |-> At(ys, Slot(i))]
(* the shares lie on a polynomial of degree at most d *)
DegLe(ys, d) == MDegLe(E, ys, d)
(* coefficient of x^d of the polynomial of degree <= d through the first d+1 shares *)
LeadW(d) == MLeadW(E, Pts(d + 1))
Lead(ys, d) == MDot(E, LeadW(d), SubSeq(ys, 1, d + 1))
FullDeg(ys, d) == DegLe(ys, d) /\ (d = 0 \/ Lead(ys, d) # Zero)

(* pairwise different and none of them zero *)
Distinct0(s) == MDistinct(Append(s, Zero))

(* Lagrange basis over the slots, at party p's point: the weights with which k unpacked values are packed *)
EiAt(k, p) == MLag(E, Slots(k), p)
Pack(k, p, vs) == MDot(E, EiAt(k, p), vs)

(* polynomial of degree < Len(xs), through integer points xs with values ys, evaluated at 1..n *)
SharesOf(xs, ys, n) == [j \in 1..n |-> MInterp(E, xs, ys, j)]

VecOf(n, F(_)) == [j \in 1..n |-> F(j)]
Col(rows, i) == [j \in 1..Len(rows) |-> rows[j][i]]
Sum(s) == MDot(E, [i \in 1..Len(s) |-> One], s)
=============================================================================
