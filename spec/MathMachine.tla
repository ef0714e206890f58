----------------------------- MODULE MathMachine -----------------------------
(***************************************************************************)
(* The library's ring elements, vectors, matrices and polynomials as a     *)
(* register machine: what every operation returns and stores, and which    *)
(* calls are refused.  A refused call changes nothing.                     *)
(* An event e has op, a (integer arguments), b (bytes) and, when recorded, *)
(* ok (0 if refused) and r (what was returned or stored).                  *)
(* Register numbers in e.a start at 0.                                     *)
(***************************************************************************)
EXTENDS Ring, Sequences
NoMat == [r |-> 0, c |-> 0, d |-> <<>>]
Fresh(R) == [x |-> [i \in 1..6 |-> RZero(R)], v |-> [i \in 1..5 |-> <<>>], m |-> [i \in 1..5 |-> NoMat],
             p |-> [i \in 1..5 |-> <<RZero(R)>>]]
B2I(b) == IF b THEN 1 ELSE 0
Refused(st) == [ok |-> 0, st |-> st, r |-> 0]
SetX(st, d, w) == [ok |-> 1, st |-> [st EXCEPT !.x[d + 1] = w], r |-> w]
SetV(st, d, w) == [ok |-> 1, st |-> [st EXCEPT !.v[d + 1] = w], r |-> w]
SetM(st, d, w) == [ok |-> 1, st |-> [st EXCEPT !.m[d + 1] = w], r |-> w]
SetP(st, d, w) == [ok |-> 1, st |-> [st EXCEPT !.p[d + 1] = w], r |-> w]
Obs(st, r) == [ok |-> 1, st |-> st, r |-> r]
InPlace(o) == [o EXCEPT !.r = <<o.r, 1>>]           \* the object itself is returned
SameDim(A, B) == A.r = B.r /\ A.c = B.c

Apply(R, st, e) ==
  LET op == e.op
      a(i) == e.a[i]
      X(i) == st.x[e.a[i] + 1]
      V(i) == st.v[e.a[i] + 1]
      M(i) == st.m[e.a[i] + 1]
      P(i) == st.p[e.a[i] + 1]
  IN CASE op = "xload" -> SetX(st, a(1), RFromBytes(R, e.b))
       [] op = "xraw" -> SetX(st, a(1), RFromBytes(R, e.b))
       [] op = "xint" -> SetX(st, a(1), LET w == RFromBytes(R, e.b) IN IF a(2) = 1 THEN RNeg(R, w) ELSE w)
       [] op = "xcopy" -> SetX(st, a(1), X(2))
       [] op = "xadd" -> SetX(st, a(1), RAdd(R, X(2), X(3)))
       [] op = "xsub" -> SetX(st, a(1), RSub(R, X(2), X(3)))
       [] op = "xmul" -> SetX(st, a(1), RMul(R, X(2), X(3)))
       [] op = "xdiv" -> IF RIsUnit(R, X(3)) THEN SetX(st, a(1), RDiv(R, X(2), X(3))) ELSE Refused(st)
       [] op = "xaddi" -> InPlace(SetX(st, a(1), RAdd(R, X(1), X(2))))
       [] op = "xsubi" -> InPlace(SetX(st, a(1), RSub(R, X(1), X(2))))
       [] op = "xmuli" -> InPlace(SetX(st, a(1), RMul(R, X(1), X(2))))
       [] op = "xdivi" -> IF RIsUnit(R, X(2)) THEN InPlace(SetX(st, a(1), RDiv(R, X(1), X(2)))) ELSE Refused(st)
       [] op \in {"xneg", "xnegated"} -> SetX(st, a(1), RNeg(R, X(2)))
       [] op = "xnegi" -> SetX(st, a(1), RNeg(R, X(1)))
       [] op = "xinv" -> IF RIsUnit(R, X(2)) THEN SetX(st, a(1), RInv(R, X(2))) ELSE Refused(st)
       [] op = "xinvi" -> IF RIsUnit(R, X(1)) THEN SetX(st, a(1), RInv(R, X(1))) ELSE Refused(st)
       [] op = "xeq" -> Obs(st, B2I(X(1) = X(2)))
       [] op = "xne" -> Obs(st, B2I(X(1) # X(2)))
       [] op = "xlsb" -> Obs(st, X(1)[1] % 2)
       [] op = "xwrite" -> Obs(st, X(1))
       [] op = "xround" -> LET o == SetX(st, a(1), X(2)) IN [o EXCEPT !.r = <<X(2), 1>>]
       [] op \in {"xstr", "xstream"} -> Obs(st, RText(X(1)))
       [] op = "xretext" -> LET o == SetX(st, a(1), X(2)) IN [o EXCEPT !.r = <<X(2), 1>>]
       [] op = "xtext" -> LET t == ParseText(e.b, a(2)) IN IF t.ok THEN SetX(st, a(1), RNorm(R, t.d)) ELSE Refused(st)
       [] op = "xsizes" -> Obs(st, <<RByteSize(R), R.e>>)
       \* ---- vectors
       [] op = "vload" -> SetV(st, a(1), RFromByteSeq(R, e.b))
       [] op = "vnew" -> SetV(st, a(1), [i \in 1..a(2) |-> RZero(R)])
       [] op = "vnone" -> SetV(st, a(1), <<>>)
       [] op = "vlist" -> SetV(st, a(1), <<X(2), X(3), X(4)>>)
       [] op \in {"vstd", "vcopy", "vround"} -> SetV(st, a(1), V(2))
       [] op = "vrange" -> SetV(st, a(1), SubSeq(V(2), a(3) + 1, a(4)))
       [] op = "vrev" -> SetV(st, a(1), Rev(V(2)))
       [] op = "vemp" -> SetV(st, a(1), Append(V(1), X(2)))
       [] op = "vres" -> Obs(st, V(1))
       [] op = "vset" -> SetV(st, a(1), [V(1) EXCEPT ![a(2) + 1] = X(3)])
       [] op = "vget" -> SetX(st, a(1), V(2)[a(3) + 1])
       [] op = "vadd" -> IF Len(V(2)) = Len(V(3)) THEN SetV(st, a(1), RVAdd(R, V(2), V(3))) ELSE Refused(st)
       [] op = "vsub" -> IF Len(V(2)) = Len(V(3)) THEN SetV(st, a(1), RVSub(R, V(2), V(3))) ELSE Refused(st)
       [] op = "vmul" -> IF Len(V(2)) = Len(V(3)) THEN SetV(st, a(1), RVMul(R, V(2), V(3))) ELSE Refused(st)
       [] op = "vaddi" -> IF Len(V(1)) = Len(V(2)) THEN InPlace(SetV(st, a(1), RVAdd(R, V(1), V(2)))) ELSE Refused(st)
       [] op = "vsubi" -> IF Len(V(1)) = Len(V(2)) THEN InPlace(SetV(st, a(1), RVSub(R, V(1), V(2)))) ELSE Refused(st)
       [] op = "vmuli" -> IF Len(V(1)) = Len(V(2)) THEN InPlace(SetV(st, a(1), RVMul(R, V(1), V(2)))) ELSE Refused(st)
       [] op = "vdot" -> IF Len(V(2)) = Len(V(3)) THEN SetX(st, a(1), RVDot(R, V(2), V(3))) ELSE Refused(st)
       [] op = "vsum" -> SetX(st, a(1), RVSum(R, V(2)))
       [] op = "vscale" -> SetV(st, a(1), RVScale(R, X(3), V(2)))
       [] op = "vscalei" -> InPlace(SetV(st, a(1), RVScale(R, X(2), V(1))))
       [] op = "vscalea" -> InPlace(SetV(st, a(1), RVScale(R, V(1)[a(2) + 1], V(1))))
       [] op = "veq" -> Obs(st, B2I(V(1) = V(2)))
       [] op = "vsize" -> Obs(st, <<Len(V(1)), Len(V(1)) * RByteSize(R)>>)
       [] op = "vwrite" -> Obs(st, RToByteSeq(R, V(1)))
       [] op = "vrow" -> SetM(st, a(1), [r |-> 1, c |-> Len(V(2)), d |-> V(2)])
       [] op = "vcol" -> SetM(st, a(1), [r |-> Len(V(2)), c |-> 1, d |-> V(2)])
       \* ---- matrices
       [] op = "mload" -> SetM(st, a(1), [r |-> a(2), c |-> a(3), d |-> RFromByteSeq(R, e.b)])
       [] op = "mnew" -> IF a(2) > 0 /\ a(3) > 0 THEN SetM(st, a(1), [r |-> a(2), c |-> a(3), d |-> [i \in 1..(a(2) * a(3)) |-> RZero(R)]]) ELSE Refused(st)
       [] op = "msq" -> IF a(2) > 0 THEN SetM(st, a(1), [r |-> a(2), c |-> a(2), d |-> [i \in 1..(a(2) * a(2)) |-> RZero(R)]]) ELSE Refused(st)
       [] op = "mid" -> IF a(2) > 0 THEN SetM(st, a(1), MatId(R, a(2))) ELSE Refused(st)
       [] op = "mnone" -> SetM(st, a(1), NoMat)
       [] op \in {"mcopy", "mround"} -> SetM(st, a(1), M(2))
       [] op = "mvec" -> IF a(2) * a(3) = Len(V(4)) THEN SetM(st, a(1), [r |-> a(2), c |-> a(3), d |-> V(4)]) ELSE Refused(st)
       [] op = "mget" -> SetX(st, a(1), MatAt(M(2), a(3) + 1, a(4) + 1))
       [] op = "mset" -> SetM(st, a(1), [M(1) EXCEPT !.d[a(2) * M(1).c + a(3) + 1] = X(4)])
       [] op = "madd" -> IF SameDim(M(2), M(3)) THEN SetM(st, a(1), [M(2) EXCEPT !.d = RVAdd(R, M(2).d, M(3).d)]) ELSE Refused(st)
       [] op = "msub" -> IF SameDim(M(2), M(3)) THEN SetM(st, a(1), [M(2) EXCEPT !.d = RVSub(R, M(2).d, M(3).d)]) ELSE Refused(st)
       [] op = "mmule" -> IF SameDim(M(2), M(3)) THEN SetM(st, a(1), [M(2) EXCEPT !.d = RVMul(R, M(2).d, M(3).d)]) ELSE Refused(st)
       [] op = "maddi" -> IF SameDim(M(1), M(2)) THEN InPlace(SetM(st, a(1), [M(1) EXCEPT !.d = RVAdd(R, M(1).d, M(2).d)])) ELSE Refused(st)
       [] op = "msubi" -> IF SameDim(M(1), M(2)) THEN InPlace(SetM(st, a(1), [M(1) EXCEPT !.d = RVSub(R, M(1).d, M(2).d)])) ELSE Refused(st)
       [] op = "mmulei" -> IF SameDim(M(1), M(2)) THEN InPlace(SetM(st, a(1), [M(1) EXCEPT !.d = RVMul(R, M(1).d, M(2).d)])) ELSE Refused(st)
       [] op = "mmul" -> IF M(2).c = M(3).r THEN SetM(st, a(1), MatMul(R, M(2), M(3))) ELSE Refused(st)
       [] op = "mscale" -> SetM(st, a(1), [M(2) EXCEPT !.d = RVScale(R, X(3), M(2).d)])
       [] op = "mscalei" -> InPlace(SetM(st, a(1), [M(1) EXCEPT !.d = RVScale(R, X(2), M(1).d)]))
       [] op = "mscalea" -> InPlace(SetM(st, a(1), [M(1) EXCEPT !.d = RVScale(R, MatAt(M(1), a(2) + 1, a(3) + 1), M(1).d)]))
       [] op = "mtr" -> SetM(st, a(1), MatTr(M(2)))
       [] op = "mres" -> IF a(2) * a(3) = M(1).r * M(1).c THEN InPlace(SetM(st, a(1), [M(1) EXCEPT !.r = a(2), !.c = a(3)])) ELSE Refused(st)
       [] op = "meq" -> Obs(st, B2I(M(1) = M(2)))
       [] op = "misid" -> Obs(st, B2I(M(1).r = M(1).c /\ M(1) = MatId(R, M(1).r)))
       [] op = "mdim" -> Obs(st, <<M(1).r, M(1).c, M(1).r * M(1).c * RByteSize(R), B2I(M(1).r = M(1).c)>>)
       [] op = "mwrite" -> Obs(st, RToByteSeq(R, M(1).d))
       \* ---- linear algebra (fields)
       [] op = "lrref" -> SetM(st, a(1), MatFromRows(Rref(R, MatRows(M(1))), M(1).c))
       [] op = "lsolve" ->
            LET A == M(2)
                b == V(3)
                aug == MDeep(Rref(R, [i \in 1..A.r |-> Append(MatRows(A)[i], b[i])]))
            IN IF A.r # Len(b) THEN Refused(st)
               ELSE IF RankOf(R, MatRows(A)) = A.c
               THEN LET sol == [i \in 1..A.r |-> aug[i][A.c + 1]]
                        o == SetV(st, a(1), sol) IN [o EXCEPT !.r = <<1, sol>>]
               ELSE Obs(st, <<0, <<>>>>)
       [] op = "laug" -> SetM(st, a(1), MatFromRows([i \in 1..M(2).r |-> MatRows(M(2))[i] \o MatRows(M(3))[i]], M(2).c + M(3).c))
       [] op = "lswap" -> SetM(st, a(1), MatFromRows(LET w == MatRows(M(1)) IN [w EXCEPT ![a(2) + 1] = w[a(3) + 1], ![a(3) + 1] = w[a(2) + 1]], M(1).c))
       [] op = "lmulrow" -> SetM(st, a(1), MatFromRows([MatRows(M(1)) EXCEPT ![a(2) + 1] = RVScale(R, X(3), @)], M(1).c))
       [] op = "laddrow" -> SetM(st, a(1), MatFromRows(LET w == MatRows(M(1)) IN [w EXCEPT ![a(2) + 1] = RVAdd(R, @, RVScale(R, X(4), w[a(3) + 1]))], M(1).c))
       [] op = "lhas" ->      \* of a reduced augmented matrix
            LET rows == MatRows(M(1))
                lhs == [i \in 1..Len(rows) |-> SubSeq(rows[i], 1, M(1).c - 1)]
                cons == RankOf(R, lhs) = RankOf(R, rows)
            IN Obs(st, B2I(IF a(2) = 1 THEN cons /\ RankOf(R, lhs) = M(1).c - 1 ELSE cons))
       \* ---- polynomials (fields)
       [] op = "pnew" -> SetP(st, a(1), PTrim(R, V(2)))
       [] op = "pconst" -> SetP(st, a(1), <<X(2)>>)
       [] op = "pzero" -> SetP(st, a(1), <<RZero(R)>>)
       [] op = "pcopy" -> SetP(st, a(1), P(2))
       [] op = "padd" -> SetP(st, a(1), PAdd(R, P(2), P(3)))
       [] op = "psub" -> SetP(st, a(1), PSub(R, P(2), P(3)))
       [] op = "pmul" -> SetP(st, a(1), PMul(R, P(2), P(3)))
       [] op = "pdiv" -> IF PIsZero(R, P(4)) THEN Refused(st)
                         ELSE LET t == PDivMod(R, P(3), P(4))
                              IN [ok |-> 1, r |-> t, st |-> [st EXCEPT !.p = [[@ EXCEPT ![a(1) + 1] = t[1]] EXCEPT ![a(2) + 1] = t[2]]]]
       [] op = "peval" -> SetX(st, a(1), PEval(R, P(2), X(3)))
       [] op = "pinfo" -> Obs(st, <<Len(P(1)) - 1, B2I(PIsZero(R, P(1))), P(1)[1], P(1)[Len(P(1))]>>)

(* calls the interface gives a meaning to *)
Legal(R, st, e) ==
  LET a(i) == e.a[i]
      V(i) == st.v[e.a[i] + 1]
      M(i) == st.m[e.a[i] + 1]
  IN CASE e.op = "xload" -> Len(e.b) = RByteSize(R)
       [] e.op = "xtext" -> LET t == ParseText(e.b, a(2)) IN t.ok => FitsBits(t.d, IF R.e > 64 THEN 128 ELSE 64)
       [] e.op = "vload" -> Len(e.b) = a(2) * RByteSize(R)
       [] e.op = "vrange" -> 0 <= a(3) /\ a(3) <= a(4) /\ a(4) <= Len(V(2))
       [] e.op \in {"vget"} -> a(3) \in 0..(Len(V(2)) - 1)
       [] e.op \in {"vset", "vscalea"} -> a(2) \in 0..(Len(V(1)) - 1)
       [] e.op \in {"vrow", "vcol"} -> Len(V(2)) > 0
       [] e.op = "mload" -> a(2) > 0 /\ a(3) > 0 /\ Len(e.b) = a(2) * a(3) * RByteSize(R)
       [] e.op = "mvec" -> a(2) > 0 /\ a(3) > 0
       [] e.op = "mget" -> a(3) \in 0..(M(2).r - 1) /\ a(4) \in 0..(M(2).c - 1)
       [] e.op \in {"mset", "mscalea"} -> a(2) \in 0..(M(1).r - 1) /\ a(3) \in 0..(M(1).c - 1)
       [] e.op = "mmul" -> M(2).r > 0 /\ M(3).r > 0
       [] e.op = "mtr" -> M(2).r > 0
       [] e.op = "mres" -> a(2) > 0 /\ a(3) > 0
       [] e.op = "lrref" -> R.k = "M" /\ M(1).r > 0
       [] e.op = "lsolve" -> R.k = "M" /\ M(2).r > 0 /\ (M(2).r = Len(V(3)) => M(2).r = M(2).c)
       [] e.op = "laug" -> M(2).r > 0 /\ M(2).r = M(3).r
       [] e.op = "lswap" -> a(2) \in 0..(M(1).r - 1) /\ a(3) \in 0..(M(1).r - 1)
       [] e.op = "lmulrow" -> a(2) \in 0..(M(1).r - 1)
       [] e.op = "laddrow" -> a(2) \in 0..(M(1).r - 1) /\ a(3) \in 0..(M(1).r - 1) /\ a(2) # a(3)
       [] e.op = "lhas" -> M(1).r > 0 /\ M(1).c = M(1).r + 1 /\ M(1) = MatFromRows(Rref(R, MatRows(M(1))), M(1).c)
       [] e.op = "pdiv" -> a(1) # a(2)
       [] OTHER -> TRUE

(* Sampling: the result is a function of the seed, its elements are canonical, and no bit of the
   representation is stuck over the samples taken (at least 60 of them). *)
RBit(a, i) == (a[(i \div LB) + 1] \div Pow2(i % LB)) % 2
Sampled(R, smp, again, from) ==      \* only positions > from are random, the others are zero
  /\ smp = again
  /\ \A i \in 1..Len(smp) : smp[i] = RNorm(R, smp[i]) /\ Len(smp[i]) = MLimbs(R.e)
  /\ \A i \in 1..from : smp[i] = RZero(R)
  /\ Len(smp) - from >= 60 => \A b \in 0..(R.e - 1) : {RBit(smp[i], b) : i \in (from + 1)..Len(smp)} = {0, 1}
  /\ R.e >= 61 => Cardinality({smp[i] : i \in (from + 1)..Len(smp)}) = Len(smp) - from
=============================================================================
