-------------------------------- MODULE TPOps --------------------------------
(***************************************************************************)
(* The TurboPack protocol, operation by operation: what a party may send,  *)
(* and what the values exchanged must satisfy.  lg[p][<<op, layer>>] holds *)
(* everything party p sent ([s][q]) and received ([r][q]) in an operation. *)
(***************************************************************************)
EXTENDS Circ, TLC, IOUtils

SplitProps == IF "PROP" \in DOMAIN IOEnv THEN <<IOEnv.PROP>> ELSE <<>>

MkCtx(T) ==
  LET G == IF T.cfg.is THEN FromConfig(T.cfg.inp, T.cfg.out, T.cfg.width, T.cfg.depth) ELSE T.gates
      mb == MulBatches(G, T.layers, T.k)
      nmb == Len(mb)
      ib == InBatches(G, T.n, T.k)
      ob == OutBatches(G, T.n, T.k)
  IN [ n |-> T.n, t |-> T.t, k |-> T.k, L |-> T.layers, G |-> G, mode |-> T.mode, variant |-> T.variant,
       fi |-> T.mode = "fi",
       mb |-> mb, io |-> ib \o ob,
       val |-> Vals(G, T.inputs),
       (* positions of a layer's batches in mb *)
       lb |-> [y \in 1..T.layers |-> SelectSeq([i \in 1..nmb |-> i], LAMBDA i : mb[i].lay = y)],
       nind |-> Len(Kind(G, "in")) + Len(Kind(G, "mul")),
       amb |-> { i \in 1..nmb : \E j \in 1..nmb : j # i /\ mb[i].g = mb[j].g } ]

Owned(c, p) == { i \in 1..Len(c.G) : c.G[i].g \in {"in", "out"} /\ c.G[i].a = p }
OutVals(c, p) == LET o == GatesOf(c.G, "out", p) IN [i \in 1..Len(o) |-> c.val[o[i]]]

(* dummy masks: one constant, all zero, or given wire by wire *)
DummyMasks(c, T) ==
  LET given(i) == IF \E j \in 1..Len(T.lam) : T.lam[j][1] = i
                  THEN T.lam[CHOOSE j \in 1..Len(T.lam) : T.lam[j][1] = i][2] ELSE Zero
      m == [i \in 1..Len(c.G) |->
              CASE T.variant \in {"d1", "d2"} -> T.lamc [] T.variant = "d3" -> given(i) [] OTHER -> Zero]
  IN Masks(c.G, m)

------------------------------------------------------------------------------
(* Snapshots of the preprocessing each party holds *)
SnapShape(c, s) ==
  /\ s.p \in 1..c.n
  /\ Len(s.ind) = Len(c.G)
  /\ \A i \in 1..Len(s.ind) : Canon(s.ind[i])
  /\ \A i \in 1..Len(c.mb) : i \in c.amb \/ \E j \in 1..Len(s.mb) : s.mb[j].g = c.mb[i].g
  /\ \A i \in 1..Len(c.io) : \E j \in 1..Len(s.io) :
        s.io[j].g = c.io[i].g /\ s.io[j].own = c.io[i].own /\ s.io[j].kind = c.io[i].kind
MBat(c, s, i) == s.mb[CHOOSE j \in 1..Len(s.mb) : s.mb[j].g = c.mb[i].g]
IOBat(c, s, i) == s.io[CHOOSE j \in 1..Len(s.io) :
                    s.io[j].g = c.io[i].g /\ s.io[j].own = c.io[i].own /\ s.io[j].kind = c.io[i].kind]
IndVec(c, snap, g) == [p \in 1..c.n |-> snap[p].ind[g]]
SnapMasks(c, snap) == [g \in 1..Len(c.G) |-> At(IndVec(c, snap, g), 0)]

Distinct(s) == MDistinct(s)

SnapOk(On(_), c, snap) ==
  LET n == c.n
      k == c.k
      G == c.G
      wires == SelectSeq(Ids(G), LAMBDA i : G[i].g \in {"in", "mul"})
      nb == SelectSeq([i \in 1..Len(c.mb) |-> i], LAMBDA i : i \notin c.amb)
      mbs == MDeep([i \in 1..Len(c.mb) |-> IF i \in c.amb THEN <<>> ELSE [p \in 1..n |-> MBat(c, snap[p], i)]])
      A(i) == [p \in 1..n |-> mbs[i][p].a]
      B(i) == [p \in 1..n |-> mbs[i][p].b]
      C(i) == [p \in 1..n |-> mbs[i][p].c]
      O(i, x) == [p \in 1..n |-> mbs[i][p].o[x]]
      ios == MDeep([i \in 1..Len(c.io) |-> [p \in 1..n |-> IOBat(c, snap[p], i).o]])
      IO(i) == ios[i]
      masks == MDeep(SnapMasks(c, snap))
      EqualSlots(v) == \A i \in 2..k : At(v, Slot(i)) = At(v, 0)
      ZeroSlots(v) == \A i \in 1..k : At(v, Slot(i)) = Zero
  IN
  /\ On("T05") =>
       /\ \A i \in 1..Len(wires) : LET v == IndVec(c, snap, wires[i]) IN DegLe(v, n - k) /\ EqualSlots(v)
       /\ \A p \in 1..n : snap[p].nmb = Len(c.mb) /\ snap[p].nio = Len(c.io)
       /\ \A x \in 1..Len(nb) : LET i == nb[x] IN
            /\ DegLe(A(i), n - k) /\ DegLe(B(i), n - k) /\ DegLe(C(i), n - k)
            /\ \A y \in 1..k : At(C(i), Slot(y)) = Mul(At(A(i), Slot(y)), At(B(i), Slot(y)))
            /\ \A y \in 1..3 : ZeroSlots(O(i, y))
       /\ \A i \in 1..Len(c.io) : ZeroSlots(IO(i))
  /\ On("T06") =>
       \A i \in 1..Len(G) : LET v == IndVec(c, snap, i) IN
         /\ DegLe(v, n - k) /\ EqualSlots(v)
         /\ G[i].g = "add" => masks[i] = Add(masks[G[i].a], masks[G[i].b])
         /\ G[i].g = "out" => masks[i] = masks[G[i].b]
  /\ (On("T07") /\ c.fi /\ n > 1) =>
       LET fac == MFlat([x \in 1..Len(nb) |-> SlotVals(A(nb[x]), k) \o SlotVals(B(nb[x]), k)])
           one == [x \in 1..Len(wires) |-> masks[wires[x]]] \o fac
           (* the vectors of all parties' zero shares, by batch and role *)
           zer == MFlat([x \in 1..Len(nb) |-> << O(nb[x], 1), O(nb[x], 2), O(nb[x], 3) >>])
                  \o [i \in 1..Len(c.io) |-> IO(i)]
       IN /\ Distinct(Append(one, Zero))
          /\ Distinct(Append([x \in 1..Len(zer) |-> Lead(zer[x], n - 1)], Zero))

(* The products opened to the first party carry masks: o[y][j] is the j-th value opened in slot y.  Which of them belongs
   to which batch is not prescribed, hence all differences to all products: no two are equal, none is a known value. *)
MasksOk(c, snap, r) ==
  LET n == c.n
      k == c.k
      nmb == Len(c.mb)
      nb == SelectSeq([i \in 1..nmb |-> i], LAMBDA i : i \notin c.amb)
      vec(i) == [q \in 1..n |-> r.r[q][i]]
      open == MDeep([y \in 1..k |-> [j \in 1..nmb |-> At(vec((y - 1) * nmb + j), Slot(y))]])
      sl(f) == MDeep([x \in 1..Len(nb) |-> SlotVals([p \in 1..n |-> IF f = 1 THEN MBat(c, snap[p], nb[x]).a
                                         ELSE IF f = 2 THEN MBat(c, snap[p], nb[x]).b ELSE MBat(c, snap[p], nb[x]).c], k)])
      cs == sl(3)
      masks == MFlat([y \in 1..k |-> MFlat([j \in 1..nmb |-> [x \in 1..Len(nb) |-> Sub(open[y][j], cs[x][y])]])])
  IN Distinct(masks \o MFlat(sl(1)) \o MFlat(sl(2)) \o <<Zero>>)

------------------------------------------------------------------------------
(* Operations *)
Sends(r, lens) == \A q \in 1..Len(r.s) : Len(r.s[q]) = lens[q]
Recvs(r, lens) == \A q \in 1..Len(r.r) : Len(r.r[q]) = lens[q]
Nobody(n) == [q \in 1..n |-> 0]
All(n, m) == [q \in 1..n |-> m]
Only(n, d, m) == [q \in 1..n |-> IF q = d THEN m ELSE 0]

NIndBlocks(c) == CeilDiv(c.nind, c.t + 1)
NUnpBlocks(c) == CeilDiv(3 * Len(c.mb), c.t + 1)
NZeroBlocks(c) == CeilDiv(3 * Len(c.mb) + Len(c.io), c.t + 1)
NZPBlocks(c) == CeilDiv(Len(c.mb), c.t + 1)

(* what p deals in one operation, block by block: the vector of the n shares *)
Dealt(r, n) == MDeep([b \in 1..Len(r.s[1]) |-> [q \in 1..n |-> r.s[q][b]]])
(* every value fixed by fresh randomness: shares and secrets other than the prescribed zeros
   (a sharing of degree 0 has just one) *)
FreshOf(c, op, v, b) ==
  CASE op = "IndS" -> IF c.t = 0 THEN <<v[1]>> ELSE Append(v, At(v, 0))
    [] op = "UnpS" -> IF c.t = 0 THEN <<v[1]>> ELSE Append(v, At(v, Slot(((b - 1) \div NUnpBlocks(c)) + 1)))
    [] OTHER -> v
Fresh(c, op, deal) ==      \* (CHOOSE binds the value of deal, which TLC then evaluates only once)
  CHOOSE f \in { MDeep(MFlat([b \in 1..Len(vs) |-> FreshOf(c, op, vs[b], b)])) : vs \in {deal} } : TRUE

DealOps == <<"IndS", "UnpS", "ZeroS", "ZProdS">>
DealOk(c, lg, p, op, r) ==
  LET n == c.n
      k == c.k
      vs == Dealt(r, n)
      nb == Len(vs)
      per == IF op = "UnpS" THEN NUnpBlocks(c) ELSE NZPBlocks(c)
      SlotOf(b) == Slot(((b - 1) \div per) + 1)
      done == SelectSeq(DealOps, LAMBDA o : <<o, 0>> \in DOMAIN lg[p])
      fresh == MFlat([i \in 1..Len(done) |-> Fresh(c, done[i], Dealt(lg[p][<<done[i], 0>>], n))])
  IN n > 1 =>
     /\ \A b \in 1..nb :
          CASE op = "IndS" -> /\ (IF c.t = 0 THEN DegLe(vs[b], 0) ELSE FullDeg(vs[b], n - k))  \* k equal slots leave t coefficients free
                              /\ \A i \in 2..k : At(vs[b], Slot(i)) = At(vs[b], 0)
            [] op = "UnpS" -> FullDeg(vs[b], c.t)
            [] op = "ZeroS" -> /\ FullDeg(vs[b], n - 1)
                               /\ \A i \in 1..k : At(vs[b], Slot(i)) = Zero
            [] OTHER -> /\ FullDeg(vs[b], n - 1)
                        /\ At(vs[b], SlotOf(b)) = Zero
     /\ Distinct(Append(fresh, Zero))     \* over all dealing operations so far
     (* no two of them differ by a sharing of lower degree *)
     /\ LET d == CASE op = "IndS" -> IF c.t = 0 THEN 0 ELSE n - k [] op = "UnpS" -> c.t [] OTHER -> n - 1
        IN d > 0 => Distinct([b \in 1..nb |-> Lead(vs[b], d)])

Phase(op) == CASE op \in {"MultPrepS", "MultPrepP1", "MultPrepR", "IOPrepS", "IOPrepR"} -> "fd"
                [] op \in {"InS", "InP1", "P1S", "PR", "PS", "P1R", "OutS", "OutR", "Online"} -> "online"
                [] OTHER -> "fi"
(* values sent by all parties to all parties (themselves included) in each phase *)
Cost(c) ==
  LET n == c.n
      nmb == Len(c.mb)
      full == c.mode # "dummy" \/ c.variant = "d5"
  IN [fi |-> IF c.fi THEN n * n * (NIndBlocks(c) + c.k * NUnpBlocks(c) + NZeroBlocks(c) + c.k * NZPBlocks(c))
                          + c.k * nmb * (n + (n - c.t)) ELSE 0,
      fd |-> IF full THEN 4 * n * nmb + n * Len(c.io) ELSE 0,
      online |-> 3 * n * nmb + Len(Kind(c.G, "in")) + Len(Kind(c.G, "out"))]

Cross(lg, n, key, q, i) == [p \in 1..n |-> lg[p][key].s[q][i]]

OpOk(On(_), c, lg, snap, lam, p, op, lay) ==
  LET n == c.n
      k == c.k
      G == c.G
      nmb == Len(c.mb)
      r == lg[p][<<op, lay>>]
      me == snap[p][1]
      first == p = 1
      haveSnaps == \A q \in 1..n : Len(snap[q]) # 0
      haveLam == Len(lam) = Len(G)
      Ind(g) == IF g = 0 THEN Zero ELSE me.ind[g]
      L(g) == IF g = 0 THEN Zero ELSE lam[g]
      MuOf(g) == IF g = 0 THEN Zero ELSE Sub(c.val[g], lam[g])
      Left(g) == IF g = 0 THEN 0 ELSE G[g].a
      Right(g) == IF g = 0 THEN 0 ELSE G[g].b
      PackInd(F(_), gs) == Pack(k, p, [i \in 1..k |-> Ind(F(gs[i]))])
      Self(g) == g
      (* the vector of all parties' i-th value sent to P1 in an operation, as P1 received it *)
      RecvVec(i) == [q \in 1..n |-> r.r[q][i]]
      SentVec(i) == [q \in 1..n |-> r.s[q][i]]
      ownIO(own) == SelectSeq([i \in 1..Len(c.io) |-> i], LAMBDA i : c.io[i].own = own)
      ins(q) == GatesOf(G, "in", q)
      ous(q) == GatesOf(G, "out", q)
  IN
  CASE op \in {"IndS", "UnpS", "ZeroS", "ZProdS"} ->
         LET m == CASE op = "IndS" -> NIndBlocks(c) [] op = "UnpS" -> k * NUnpBlocks(c)
                    [] op = "ZeroS" -> NZeroBlocks(c) [] OTHER -> k * NZPBlocks(c)
         IN /\ (On("T09") \/ On("T08")) => Sends(r, All(n, m)) /\ Recvs(r, Nobody(n))
            /\ On("T08") => DealOk(c, lg, p, op, r)
    [] op \in {"IndR", "UnpR", "ZeroR", "ZProdR", "FIR"} -> On("T09") => Sends(r, Nobody(n))
    [] op = "FIS" -> On("T09") => Recvs(r, Nobody(n))
    [] op = "ProdS" -> On("T09") => Sends(r, Only(n, 1, k * nmb))
    [] op = "ProdP1" ->
         IF first
         THEN /\ Recvs(r, All(n, k * nmb))
              /\ (On("T09") \/ On("T05")) => Sends(r, [q \in 1..n |-> IF q > c.t THEN k * nmb ELSE 0])
              /\ On("T05") =>
                   \A i \in 1..(k * nmb) :
                     LET v == [q \in 1..n |-> IF q > c.t THEN r.s[q][i] ELSE Zero]
                         x == Slot(((i - 1) \div nmb) + 1)
                     IN DegLe(v, c.t) /\ At(v, x) = At(RecvVec(i), x)
              (* blinded by zero sharings of full degree, all different *)
              /\ (On("T09") /\ n > 1 /\ 2 * c.t < n - 1) =>
                   Distinct(Append([i \in 1..(k * nmb) |-> Lead(RecvVec(i), n - 1)], Zero))
         ELSE On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "ProdR" -> On("T09") => Sends(r, Nobody(n))
    [] op = "Map" -> On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "MultPrepS" ->
         /\ On("T09") => Sends(r, Only(n, 1, 2 * nmb))
         /\ Len(r.s[1]) = 2 * nmb
         /\ (On("T09") /\ Len(snap[p]) # 0) =>
              \A i \in (1..nmb) \ c.amb :
                LET b == MBat(c, me, i)
                IN /\ r.s[1][2 * i - 1] = Add(PackInd(Left, c.mb[i].g), Add(b.a, b.o[1]))
                   /\ r.s[1][2 * i] = Add(PackInd(Right, c.mb[i].g), Add(b.b, b.o[2]))
    [] op = "MultPrepP1" ->
         IF first
         THEN /\ Recvs(r, All(n, 2 * nmb))
              /\ Sends(r, All(n, 2 * nmb))
              /\ On("T06") =>
                   /\ haveSnaps /\ haveLam
                   /\ \A i \in 1..nmb :
                        /\ \A h \in 0..1 :
                             LET o == RecvVec(2 * i - 1 + h)
                                 s == SentVec(2 * i - 1 + h)
                             IN DegLe(s, k - 1) /\ SlotVals(s, k) = SlotVals(o, k)
                        /\ i \notin c.amb =>
                             LET av == [q \in 1..n |-> MBat(c, snap[q][1], i).a]
                                 bv == [q \in 1..n |-> MBat(c, snap[q][1], i).b]
                             IN \A y \in 1..k :
                                  /\ At(RecvVec(2 * i - 1), Slot(y)) = Add(L(Left(c.mb[i].g[y])), At(av, Slot(y)))
                                  /\ At(RecvVec(2 * i), Slot(y)) = Add(L(Right(c.mb[i].g[y])), At(bv, Slot(y)))
         ELSE On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "MultPrepR" -> /\ Recvs(r, Only(n, 1, 2 * nmb))
                           /\ On("T09") => Sends(r, Nobody(n))
    [] op = "IOPrepS" ->
         /\ Sends(r, [q \in 1..n |-> Len(ownIO(q))])
         /\ (On("T09") /\ Len(snap[p]) # 0) =>
              \A q \in 1..n : \A j \in 1..Len(ownIO(q)) :
                LET i == ownIO(q)[j] IN
                r.s[q][j] = Add(PackInd(Self, c.io[i].g), IOBat(c, me, i).o)
    [] op = "IOPrepR" ->
         /\ Recvs(r, All(n, Len(ownIO(p))))
         /\ On("T09") => Sends(r, Nobody(n))
         /\ On("T06") => /\ haveLam
                         /\ \A j \in 1..Len(ownIO(p)) : \A y \in 1..k :
                              At(RecvVec(j), Slot(y)) = L(c.io[ownIO(p)[j]].g[y])
    [] op = "InS" ->
         /\ Sends(r, Only(n, 1, Len(ins(p))))
         /\ On("T03") => haveLam /\ \A j \in 1..Len(ins(p)) : r.s[1][j] = MuOf(ins(p)[j])
    [] op = "InP1" -> IF first THEN Recvs(r, [q \in 1..n |-> Len(ins(q))])
                      ELSE On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "P1S" ->
         LET bs == c.lb[lay] IN
         IF first
         THEN /\ Sends(r, All(n, 2 * Len(bs)))
              /\ On("T03") => haveLam /\ \A i \in 1..Len(bs) :
                   LET gs == c.mb[bs[i]].g
                       a == SentVec(2 * i - 1)
                       b == SentVec(2 * i)
                   IN /\ DegLe(a, k - 1) /\ DegLe(b, k - 1)
                      /\ \A y \in 1..k : /\ At(a, Slot(y)) = MuOf(Left(gs[y]))
                                         /\ At(b, Slot(y)) = MuOf(Right(gs[y]))
         ELSE On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "PR" -> /\ Recvs(r, Only(n, 1, 2 * Len(c.lb[lay])))
                    /\ On("T09") => Sends(r, Nobody(n))
    [] op = "PS" ->
         LET bs == c.lb[lay] IN
         /\ Sends(r, Only(n, 1, Len(bs)))
         /\ (On("T09") /\ c.fi) =>
              /\ Len(snap[p]) # 0
              /\ <<"MultPrepR", 0>> \in DOMAIN lg[p] /\ <<"PR", lay>> \in DOMAIN lg[p]
              /\ \A x \in 1..Len(bs) : bs[x] \in c.amb \/
                 LET i == bs[x]
                     b == MBat(c, me, i)
                     RA == lg[p][<<"MultPrepR", 0>>].r[1][2 * i - 1]
                     RB == lg[p][<<"MultPrepR", 0>>].r[1][2 * i]
                     mA == lg[p][<<"PR", lay>>].r[1][2 * x - 1]
                     mB == lg[p][<<"PR", lay>>].r[1][2 * x]
                     lA == Sub(RA, b.a)
                     lB == Sub(RB, b.b)
                     own == PackInd(Self, c.mb[i].g)
                     delta == Add(Sub(Sub(Sub(Mul(RA, RB), Mul(RA, b.b)), Mul(RB, b.a)), own), Add(b.c, b.o[3]))
                 IN r.s[1][x] = Add(Add(Mul(mB, lA), Mul(mA, lB)), Add(Mul(mA, mB), delta))
    [] op = "P1R" ->
         LET bs == c.lb[lay] IN
         IF first
         THEN /\ Recvs(r, All(n, Len(bs)))
              /\ On("T03") => haveLam /\ \A i \in 1..Len(bs) : \A y \in 1..k :
                   LET g == c.mb[bs[i]].g[y] IN g # 0 => At(RecvVec(i), Slot(y)) = MuOf(g)
         ELSE On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "OutS" ->
         IF first
         THEN /\ Sends(r, [q \in 1..n |-> Len(ous(q))])
              /\ On("T03") => haveLam /\ \A q \in 1..n : \A j \in 1..Len(ous(q)) : r.s[q][j] = MuOf(ous(q)[j])
         ELSE On("T09") => Sends(r, Nobody(n)) /\ Recvs(r, Nobody(n))
    [] op = "OutR" -> Recvs(r, Only(n, 1, Len(ous(p)))) /\ (On("T09") => Sends(r, Nobody(n)))
    [] op = "Online" -> TRUE
    [] OTHER -> FALSE
=============================================================================
