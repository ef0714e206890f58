---------------------------- MODULE MersenneTest ----------------------------
(* Writes the results of the Mersenne operators on a grid of operands; run with and without the
   Java override, both files must agree. Also checks field laws for small e exhaustively. *)
EXTENDS Mersenne, TLC, FiniteSets, SequencesExt, Json, IOUtils

Samples(e) ==
  LET m == MLimbs(e)
      top == PDigits(e)
  IN { MZero(e), MOne(e), MNeg(e, MOne(e)), [top EXCEPT ![1] = @ - 1],
       MNorm(e, [i \in 1..m |-> (i * 3271 + 77) % LBase]), MNorm(e, [i \in 1..m |-> (i * i * 1999 + 4096) % LBase]),
       MNorm(e, [i \in 1..m |-> LBase - i]), MNorm(e, [i \in 1..m |-> IF i = m THEN 1 ELSE 0]) }

Row(e, a, b) == <<MAdd(e, a, b), MSub(e, a, b), MMul(e, a, b), MNeg(e, a), IF a = MZero(e) \/ b # MOne(e) THEN a ELSE MInv(e, a)>>     \* (an inverse does not depend on b)
Out(e) == LET q == SetToSeq(Samples(e) \X Samples(e)) IN [i \in 1..Len(q) |-> <<q[i], Row(e, q[i][1], q[i][2])>>]
XS == <<0, -1, -2, 1, 5, 3>>
Mat(e, r, c, m) == [i \in 1..r |-> [j \in 1..c |-> MFromInt(e, IF m = 0 THEN i * j ELSE (i * i * j + m * j * j + i) % 1000)]]
Lag(e) == <<MLag(e, XS, 7), MLag(e, XS, -1), MInterp(e, XS, [i \in 1..6 |-> MFromInt(e, 100000 * i - 250000)], 9),
            MDot(e, [i \in 1..4 |-> MFromInt(e, -i)], [i \in 1..4 |-> MFromInt(e, i * 2147483)]), MPow(e, MFromInt(e, -3), 11),
            MAt(e, [i \in 1..6 |-> MFromInt(e, 100000 * i - 250000)], -2), MLeadW(e, XS),
            [d \in 1..7 |-> MDegLe(e, [i \in 1..6 |-> MFromInt(e, i * i * i - i)], d - 2)],
            MFlat(<< <<MZero(e)>>, <<>>, <<MOne(e), MZero(e)>> >>),
            MDistinct(<<MOne(e), MZero(e)>>), MRank(e, Mat(e, 4, 3, 7)), MRank(e, Mat(e, 3, 5, 2)), MRank(e, Mat(e, 4, 4, 0)), MRank(e, <<>>), MDistinct(<<MOne(e), MZero(e), MOne(e)>>)>>

Laws(e) ==   \* exhaustive for small e
  LET F == { MFromInt(e, i) : i \in 0..(Pow2(e) - 2) } IN
  /\ Cardinality(F) = Pow2(e) - 1
  /\ \A a \in F, b \in F : /\ MAdd(e, a, b) \in F /\ MMul(e, a, b) \in F
                           /\ MSub(e, MAdd(e, a, b), b) = a
                           /\ (b # MZero(e) => MMul(e, MMul(e, a, b), MInv(e, b)) = a)

ASSUME Laws(3) /\ Laws(5)
ASSUME JsonSerialize(IOEnv.OUT, <<Out(61), Out(127), Out(3), Lag(61), Lag(127), Lag(5)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
