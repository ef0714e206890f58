----------------------------- MODULE RingDesign -----------------------------
(* The operators of Ring.tla against TLC's own integers, and the ring axioms, over all elements of small rings. *)
EXTENDS Ring
CONSTANT BIG
Rings == {[k |-> "M", e |-> 3], [k |-> "M", e |-> 5], [k |-> "Z", e |-> 1], [k |-> "Z", e |-> 3], [k |-> "Z", e |-> 5]}
         \cup IF BIG THEN {[k |-> "M", e |-> 7], [k |-> "Z", e |-> 8]} ELSE {}
Mod(R) == IF R.k = "M" THEN Pow2(R.e) - 1 ELSE Pow2(R.e)
El(R, i) == <<i>>
Val(R, a) == a[1]
VARIABLES R, a, b
Init == R \in Rings /\ a \in 0..(Mod(R) - 1) /\ b \in 0..(Mod(R) - 1)
Next == FALSE /\ UNCHANGED <<R, a, b>>
x == El(R, a)
y == El(R, b)
Laws ==
  /\ RAdd(R, x, y) = El(R, (a + b) % Mod(R))
  /\ RSub(R, x, y) = El(R, (a + Mod(R) - b) % Mod(R))
  /\ RMul(R, x, y) = El(R, (a * b) % Mod(R))
  /\ RNeg(R, x) = El(R, (Mod(R) - a) % Mod(R))
  /\ RIsUnit(R, x) <=> \E i \in 0..(Mod(R) - 1) : (a * i) % Mod(R) = 1 % Mod(R)
  /\ RIsUnit(R, x) => RMul(R, x, RInv(R, x)) = RNorm(R, ROne(R))
  /\ RMul(R, x, RAdd(R, y, x)) = RAdd(R, RMul(R, x, y), RMul(R, x, x))
Codec ==
  /\ RFromBytes(R, RToBytes(x, RByteSize(R))) = x
  /\ RNorm(R, ParseText(RText(x), 10).d) = x
  /\ \A v \in {a + 256 * b} : RNorm(R, BytesToDigits(<<v % 256, v \div 256>>)) = El(R, v % Mod(R))
  /\ RNorm(R, DigitsOf(<<a, b>>, 32)) = El(R, (32 * a + b) % Mod(R))
=============================================================================
