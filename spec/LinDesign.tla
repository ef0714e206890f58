------------------------------ MODULE LinDesign ------------------------------
(* Linear algebra of Ring.tla: all small matrices over GF(7). *)
EXTENDS Ring
CONSTANTS BIG, KIND
F == [k |-> "M", e |-> 3]
Some == IF BIG THEN 0..6 ELSE {0, 1, 3, 6}
Mat22(s) == {<<<<<<p>>, <<q>>>>, <<<<r>>, <<t>>>>>> : p \in s, q \in s, r \in s, t \in s}
VARIABLES A, B
Init == IF KIND = "lin"
        THEN A \in Mat22(Some) /\ B \in (IF BIG THEN {<<<<i>>, <<j>>>> : i \in 0..6, j \in 0..6} ELSE {<<<<i>>, <<j>>>> : i \in {0, 1, 5}, j \in {0, 1, 2}})
        ELSE A \in Mat22(Some) /\ B \in Mat22(IF BIG THEN {0, 1, 3, 6} ELSE {0, 1, 5})
Next == FALSE /\ UNCHANGED <<A, B>>
M(X) == MatFromRows(X, 2)
Col(v) == <<v[1], v[2]>>
Ax(v) == [i \in 1..2 |-> RVDot(F, A[i], v)]
Vecs == {<<<<i>>, <<j>>>> : i \in 0..6, j \in 0..6}
Sols == {v \in Vecs : Ax(v) = B}
Red == Rref(F, [i \in 1..2 |-> Append(A[i], B[i])])
LinLaws ==
  \A red \in {MDeep(Red)}, sols \in {MDeep(Sols)}, r \in {RankOf(F, A)} :
     /\ (r = 2) <=> (Cardinality(sols) = 1)
     /\ (r = 2) => sols = {<<red[1][3], red[2][3]>>}
     /\ Rref(F, red) = red                                     \* reducing again changes nothing
     /\ sols = {v \in Vecs : \A i \in 1..2 : RVDot(F, SubSeq(red[i], 1, 2), v) = red[i][3]}     \* same solutions
     /\ B = <<<<0>>, <<0>>>> => Cardinality(sols) = (IF r = 2 THEN 1 ELSE IF r = 1 THEN 7 ELSE 49)
MatLaws ==
  /\ MatMul(F, M(A), MatId(F, 2)) = M(A)
  /\ MatTr(MatTr(M(A))) = M(A)
  /\ MatTr(MatMul(F, M(A), M(B))) = MatMul(F, MatTr(M(B)), MatTr(M(A)))
  /\ LET D(X, Y) == [r |-> 2, c |-> 2, d |-> RVAdd(F, X.d, Y.d)]
     IN MatMul(F, M(A), D(M(A), M(B))) = D(MatMul(F, M(A), M(A)), MatMul(F, M(A), M(B)))
  /\ \A i, j \in 1..2 : MatAt(MatMul(F, M(A), M(B)), i, j) = RAdd(F, RMul(F, A[i][1], B[1][j]), RMul(F, A[i][2], B[2][j]))
=============================================================================
