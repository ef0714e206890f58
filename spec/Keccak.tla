------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* SHA-3 (FIPS 202) on bytes.  A lane is four 16-bit limbs, least          *)
(* significant first; the state is 25 lanes, lane x + 5y at index          *)
(* x + 5y + 1.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, Mersenne

LXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
LAndNot(a, b) == [i \in 1..4 |-> (65535 - a[i]) & b[i]]          \* ~a /\ b
P2 == [i \in 0..16 |-> 2 ^ i]
LRot(a, n) ==
  LET q == n \div 16
      r == n % 16
  IN [i \in 1..4 |-> LET lo == a[((i - 1 - q + 8) % 4) + 1]
                         hi == a[((i - 2 - q + 8) % 4) + 1]
                     IN ((lo % P2[16 - r]) * P2[r]) + (hi \div P2[16 - r])]
Zero64 == <<0, 0, 0, 0>>

(* rotation offsets and round constants derived as in the standard *)
RECURSIVE RotFrom(_, _, _, _)
RotFrom(x, y, t, acc) ==     \* offset of (x, y) is (t+1)(t+2)/2 mod 64 along the walk (1,0) -> (y, 2x+3y)
  IF t = 24 THEN acc
  ELSE RotFrom(y, (2 * x + 3 * y) % 5, t + 1, [acc EXCEPT ![x + 5 * y + 1] = (((t + 1) * (t + 2)) \div 2) % 64])
RotOf == RotFrom(1, 0, 0, [i \in 1..25 |-> 0])
(* the LFSR x^8 + x^6 + x^5 + x^4 + 1 gives the bits of the round constants *)
RECURSIVE Lfsr(_, _)
Lfsr(n, r) == IF n = 0 THEN r
              ELSE LET s == r * 2 IN Lfsr(n - 1, IF s >= 256 THEN (s - 256) ^^ 113 ELSE s)
RcBit(t) == Lfsr(t % 255, 1) % 2
RcOf(ir) == [k \in 1..4 |->
  LET Bit(j) == IF \E e \in 0..6 : 2 ^ e - 1 = j THEN RcBit((CHOOSE e \in 0..6 : 2 ^ e - 1 = j) + 7 * ir) ELSE 0
      Sum[j \in 0..16] == IF j = 0 THEN 0 ELSE Sum[j - 1] + (Bit(16 * (k - 1) + j - 1) * P2[j - 1])
  IN Sum[16]]
Rc == MDeep([i \in 1..24 |-> RcOf(i - 1)])

Round(a, ir) ==
  LET c == MDeep([x \in 1..5 |-> LXor(LXor(LXor(LXor(a[x], a[x + 5]), a[x + 10]), a[x + 15]), a[x + 20])])
      d == MDeep([x \in 1..5 |-> LXor(c[((x + 3) % 5) + 1], LRot(c[(x % 5) + 1], 1))])
      th == MDeep([i \in 1..25 |-> LXor(a[i], d[((i - 1) % 5) + 1])])
      (* rho and pi: B[y, 2x+3y] = rot(A[x, y]) *)
      b == MDeep([i \in 1..25 |->
             LET px == (i - 1) % 5
                 py == (i - 1) \div 5
                 x == (px + 3 * py) % 5          \* the lane that pi moves to (px, py)
             IN LRot(th[x + 5 * px + 1], RotOf[x + 5 * px + 1])])
      ch == MDeep([i \in 1..25 |->
             LET x == (i - 1) % 5
                 y == 5 * ((i - 1) \div 5)
             IN LXor(b[i], LAndNot(b[y + ((x + 1) % 5) + 1], b[y + ((x + 2) % 5) + 1]))])
  IN [ch EXCEPT ![1] = LXor(ch[1], Rc[ir])]
RECURSIVE Rounds(_, _)
Rounds(a, ir) == IF ir > 24 THEN a ELSE Rounds(MDeep(Round(a, ir)), ir + 1)
KeccakF(a) == Rounds(a, 1)

RateOf(b) == 200 - (b \div 4)                      \* bytes; capacity 2b bits
LaneAt(m, o) == <<m[o + 1] + (256 * m[o + 2]), m[o + 3] + (256 * m[o + 4]), m[o + 5] + (256 * m[o + 6]), m[o + 7] + (256 * m[o + 8])>>
Pad(b, n) ==       \* domain bits 01 and pad10*1 for a message of n bytes
  LET r == RateOf(b)
      k == r - (n % r)
  IN IF k = 1 THEN <<134>> ELSE [i \in 1..k |-> IF i = 1 THEN 6 ELSE IF i = k THEN 128 ELSE 0]
XorBlock(a, m, o, r) == MDeep([i \in 1..25 |-> IF i <= r \div 8 THEN LXor(a[i], LaneAt(m, o + 8 * (i - 1))) ELSE a[i]])
RECURSIVE Absorb(_, _, _, _)
Absorb(a, m, o, r) == IF o = Len(m) THEN a ELSE Absorb(KeccakF(XorBlock(a, m, o, r)), m, o + r, r)
ByteOf(a, i) == LET w == a[(i \div 8) + 1][((i % 8) \div 2) + 1] IN IF i % 2 = 0 THEN w % 256 ELSE w \div 256
Sha3(b, m) ==
  LET s == Absorb([i \in 1..25 |-> Zero64], m \o Pad(b, Len(m)), 0, RateOf(b))
  IN MDeep([i \in 1..(b \div 8) |-> ByteOf(s, i - 1)])
=============================================================================
