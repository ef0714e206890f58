--------------------------------- MODULE Aes ---------------------------------
(* AES-128 (FIPS 197) on bytes, the S-box derived from inversion in GF(2^8). *)
EXTENDS Integers, Sequences, Bitwise, Mersenne
RECURSIVE XorAll(_)
XorAll(t) == IF Len(t) = 1 THEN t[1] ELSE t[1] ^^ XorAll(Tail(t))
Xt(a) == LET s == a * 2 IN IF s >= 256 THEN (s - 256) ^^ 27 ELSE s
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(Xt(a), b \div 2)
(* 3 generates the multiplicative group *)
RECURSIVE PowTab(_, _)
PowTab(n, acc) == IF Len(acc) = n THEN acc ELSE PowTab(n, Append(acc, acc[Len(acc)] ^^ Xt(acc[Len(acc)])))
Exp3 == PowTab(255, <<1>>)
Log3 == MDeep([a \in 1..255 |-> (CHOOSE i \in 1..255 : Exp3[i] = a) - 1])
GInv(a) == IF a = 0 THEN 0 ELSE Exp3[((255 - Log3[a]) % 255) + 1]
Rol8(x, k) == ((x * (2 ^ k)) % 256) + (x \div (2 ^ (8 - k)))
SBox == MDeep([a \in 1..256 |-> LET x == GInv(a - 1)
                                IN XorAll(<<x, Rol8(x, 1), Rol8(x, 2), Rol8(x, 3), Rol8(x, 4), 99>>)])
Sub(x) == SBox[x + 1]
Mul2 == MDeep([a \in 1..256 |-> Xt(a - 1)])
XorB(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Rcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
NextKey(k, r) ==
  LET t == <<Sub(k[14]) ^^ Rcon[r], Sub(k[15]), Sub(k[16]), Sub(k[13])>>
      w[i \in 0..3] == IF i = 0 THEN [j \in 1..4 |-> k[j] ^^ t[j]] ELSE [j \in 1..4 |-> k[4 * i + j] ^^ w[i - 1][j]]
  IN MDeep([i \in 1..16 |-> w[(i - 1) \div 4][((i - 1) % 4) + 1]])
RECURSIVE Keys(_, _)
Keys(acc, r) == IF r > 10 THEN acc ELSE Keys(Append(acc, NextKey(acc[r], r)), r + 1)
KeySchedule(key) == Keys(<<key>>, 1)
ShiftSub(s) == MDeep([i \in 1..16 |-> Sub(s[((i - 1 + 4 * ((i - 1) % 4)) % 16) + 1])])   \* row r moves r columns
MixAt(s, i) == LET c == 4 * ((i - 1) \div 4)
                   a == s[i]
                   n1 == s[c + ((i - c) % 4) + 1]
                   n2 == s[c + ((i - c + 1) % 4) + 1]
                   n3 == s[c + ((i - c + 2) % 4) + 1]
               IN ((Mul2[a + 1] ^^ Mul2[n1 + 1]) ^^ (n1 ^^ n2)) ^^ n3
RECURSIVE RoundsFrom(_, _, _)
RoundsFrom(s, ks, r) ==
  LET b == ShiftSub(s)
  IN IF r = 10 THEN MDeep([i \in 1..16 |-> b[i] ^^ ks[11][i]])
     ELSE RoundsFrom(MDeep([i \in 1..16 |-> MixAt(b, i) ^^ ks[r + 1][i]]), ks, r + 1)
Aes128(ks, block) == RoundsFrom(MDeep(XorB(block, ks[1])), ks, 1)
=============================================================================
