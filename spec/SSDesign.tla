------------------------------ MODULE SSDesign ------------------------------
(***************************************************************************)
(* The sharing schemes themselves, exhaustively over a small field: every  *)
(* secret, all randomness, every subset, every error pattern.              *)
(***************************************************************************)
EXTENDS SS, TLC
CONSTANTS EXP, T, N, K, MODE
F == [k |-> "M", e |-> EXP]
El == {<<i>> : i \in 0..(Order(F) - 1)}
Xs == Canon(F, N)
VARIABLES s, w
(* s: the secret polynomial (or secrets); w: the received word or the error vector *)
Polys(d) == [1..(d + 1) -> El]
Errors(n, t) == {e \in [1..n -> El] : Cardinality({i \in 1..n : e[i] # <<0>>}) <= t}
Init ==
  CASE MODE = "shamir" -> s \in {<<x>> : x \in El} /\ w = <<>>
    [] MODE = "detect" -> s \in Polys(T) /\ w \in Errors(2 * T + 1, T)
    [] MODE = "correct" -> s \in Polys(T) /\ w \in Errors(3 * T + 1, T)
    [] MODE = "word" -> s = <<>> /\ w \in [1..(3 * T + 1) -> El]
    [] MODE = "packed" -> s \in [1..K -> El] /\ w = <<>>
    [] MODE = "additive" -> s \in {<<x>> : x \in El} /\ w = <<>>
Next == FALSE /\ UNCHANGED <<s, w>>

Subsets(n, m) == {S \in SUBSET (1..n) : Cardinality(S) = m}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
At(S, f(_)) == LET o == Sorted(S) IN [i \in 1..Len(o) |-> f(o[i])]

Shamir ==
  MODE = "shamir" =>
    /\ \A c \in [1..T -> El] : LET p == s \o c IN \A S \in Subsets(N, T + 1) :
         RInterp(F, At(S, LAMBDA i : Xs[i]), At(S, LAMBDA i : PEval(F, p, Xs[i])), <<0>>) = s[1]
    /\ \A S \in Subsets(N, T) :     \* t shares are uniform: a bijection of the randomness
         Cardinality({At(S, LAMBDA i : PEval(F, s \o c, Xs[i])) : c \in [1..T -> El]}) = IPow(Order(F), T)
Word(n) == [i \in 1..n |-> RAdd(F, PEval(F, s, Xs[i]), w[i])]
Detection ==
  MODE = "detect" =>
    LET y == Word(2 * T + 1)
        r == Detect(F, SubSeq(Xs, 1, 2 * T + 1), y, T, <<0>>)
    IN DetectOk(F, Xs, y, T, PTrim(F, s), <<0>>, Len(r), IF r = <<>> THEN <<>> ELSE r[1])
Correction ==
  MODE = "correct" =>
    LET y == Word(3 * T + 1)
        r == BerlekampWelch(F, SubSeq(Xs, 1, 3 * T + 1), y, T)
    IN /\ r # <<>>
       /\ CorrectOk(F, Xs, y, T, PTrim(F, s), 1, r[1], r[2])
(* any word at all: failure, or a polynomial close to the word *)
AnyWord ==
  MODE = "word" =>
    LET r == BerlekampWelch(F, SubSeq(Xs, 1, 3 * T + 1), w, T)
    IN r # <<>> => Cardinality(Wrong(F, SubSeq(Xs, 1, 3 * T + 1), w, r[1])) <= T
Packed ==      \* degree T: the secrets at the slots, T + 1 - K free values at 1, 2, ...
  MODE = "packed" =>
    LET px == Slots(F, K) \o Canon(F, T + 1 - K)
        sh(c, i) == RInterp(F, px, s \o c, Xs[i])
        Rnd == [1..(T + 1 - K) -> El]
    IN /\ \A c \in Rnd, S \in Subsets(N, T + 1) :
            InterpAt(F, At(S, LAMBDA i : Xs[i]), At(S, LAMBDA i : sh(c, i)), Slots(F, K)) = s
       /\ \A S \in Subsets(N, T + 1 - K) :
            Cardinality({At(S, LAMBDA i : sh(c, i)) : c \in Rnd}) = IPow(Order(F), T + 1 - K)
Additive ==
  MODE = "additive" =>
    LET shares(c) == <<RSub(F, s[1], RVSum(F, c))>> \o c
    IN /\ \A c \in [1..(N - 1) -> El] : RVSum(F, shares(c)) = s[1]
       /\ \A S \in Subsets(N, N - 1) :
            Cardinality({At(S, LAMBDA i : shares(c)[i]) : c \in [1..(N - 1) -> El]}) = IPow(Order(F), N - 1)
=============================================================================
