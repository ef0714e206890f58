------------------------------ MODULE TPDesign ------------------------------
(***************************************************************************)
(* The TurboPack protocol as a transition system over a small field: n     *)
(* parties, FIFO channels, one transition per operation of one party, all  *)
(* interleavings.  The sending and the receiving half of the function-     *)
(* independent phase are two threads of control when HALVES is TRUE.       *)
(* Checked by TLC for deadlock, drained channels, the outputs, the online  *)
(* invariant (P1 only learns value - mask) and single use of correlations. *)
(* Simulated, it also prints operation schedules that are replayed on the  *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS TPOps, Json
CONSTANTS N, T, K, HALVES, SEEDS, CIRCS

(* small circuits, as gates + number of layers *)
g(kd, a, b, y) == [g |-> kd, a |-> a, b |-> b, lay |-> y]
Circuits ==
  << [L |-> 1, G |-> << g("in",1,0,0), g("in",2,0,0), g("mul",1,2,1), g("add",3,1,0), g("out",2,4,0), g("out",1,3,0) >>],
     [L |-> 2, G |-> << g("in",1,0,0), g("in",N,0,0), g("in",1,0,0), g("add",1,2,0), g("mul",4,3,1), g("mul",1,1,1),
                        g("mul",2,3,1), g("add",5,6,0), g("mul",8,7,2), g("out",N,9,0), g("out",N,8,0), g("out",1,2,0) >>],
     [L |-> 2, G |-> << g("in",1,0,0), g("mul",1,1,2), g("out",1,2,0) >>],        \* an empty first layer
     [L |-> 1, G |-> << >>] >>                                                    \* nothing at all

F == { MNorm(E, <<i>>) : i \in 0..(Pow2(E) - 2) }
Rnd(seed, p, tag, b, i) ==
  Int2F(((seed * 7919 + p * 104729 + tag * 1299709 + b * 15485 + i * 3571 + ((seed + p * 3 + b * 5 + i * 7 + tag) * (seed + 11 * i + b + 2 * p)) * 13)
          % 10007) * 3 + i)

(* programs: sequences of <<op, lay>> *)
FIsend == <<"IndS", "UnpS", "ZeroS", "ZProdS">>
FIrecv == <<"IndR", "UnpR", "ZeroR", "ZProdR">>
Sep == <<"IndS", "IndR", "UnpS", "UnpR", "ZeroS", "ZeroR", "ZProdS", "ZProdR">>
LayOps(L) == Cat([y \in 1..L |-> << <<"P1S", y>>, <<"PR", y>>, <<"PS", y>>, <<"P1R", y>> >>], L)
Z(s) == [i \in 1..Len(s) |-> <<s[i], 0>>]
Rest(L) == Z(<<"ProdS", "ProdP1", "ProdR", "Map", "MultPrepS", "MultPrepP1", "IOPrepS", "MultPrepR", "IOPrepR", "InS", "InP1">>)
           \o LayOps(L) \o Z(<<"OutS", "OutR">>)
Main(L) == (IF HALVES THEN Z(FIsend) ELSE Z(Sep)) \o Rest(L)

VARIABLES seed, c, pc, half, chan, loc, out, sched, cost
vars == <<seed, c, pc, half, chan, loc, out, sched, cost>>
P == 1..N
NoHist == <<seed, c.id, pc, half>>       \* everything else is a function of these (checked by Confluent below)

Inputs(G, s) == [p \in P |-> [j \in 1..Len(GatesOf(G, "in", p)) |-> Rnd(s, p, 99, j, 0)]]
Ctx(ci, s) ==
  LET x == MkCtx([n |-> N, t |-> T, k |-> K, layers |-> Circuits[ci].L, gates |-> Circuits[ci].G, mode |-> "fi",
                  variant |-> "", cfg |-> [is |-> FALSE], inputs |-> Inputs(Circuits[ci].G, s)])
  IN x @@ [id |-> ci, inp |-> Inputs(Circuits[ci].G, s)]

Init ==
  \E s \in SEEDS, ci \in CIRCS :
    /\ seed = s /\ c = Ctx(ci, s)
    /\ pc = [p \in P |-> 1] /\ half = [p \in P |-> IF HALVES THEN 1 ELSE 5]
    /\ chan = [p \in P |-> [q \in P |-> <<>>]]
    /\ loc = [p \in P |-> [ind |-> <<>>, unp |-> <<>>, zero |-> <<>>, zp |-> <<>>, pr |-> <<>>, c |-> <<>>,
                           R |-> <<>>, own |-> <<>>, mAB |-> <<>>, mu |-> <<>>]]
    /\ out = [p \in P |-> <<>>]
    /\ sched = <<>>
    /\ cost = [x \in {"fi", "fd", "online"} |-> 0]

nmb == Len(c.mb)
IOof(p) == SelectSeq([i \in 1..Len(c.io) |-> i], LAMBDA i : c.io[i].own = p)
Wires == Kind(c.G, "in") \o Cat([y \in 1..c.L |-> MulsOf(c.G, y)], c.L)
PosOf(w) == CHOOSE i \in 1..Len(Wires) : Wires[i] = w
NB(op) == CASE op = "Ind" -> NIndBlocks(c) [] op = "Unp" -> K * NUnpBlocks(c) [] op = "Zero" -> NZeroBlocks(c) [] OTHER -> K * NZPBlocks(c)
None == [q \in P |-> <<>>]
ToAll(f) == [q \in P |-> f[q]]

(* a dealt polynomial: prescribed values at some points, random values at the first party points *)
Deal(p, op, b) ==
  LET tag == CASE op = "Ind" -> 1 [] op = "Unp" -> 2 [] op = "Zero" -> 3 [] OTHER -> 4
      r(i) == Rnd(seed, p, tag, b, i)
      sl == IF op = "Unp" THEN Slot(((b - 1) \div NUnpBlocks(c)) + 1) ELSE Slot(((b - 1) \div NZPBlocks(c)) + 1)
      xs == CASE op \in {"Ind", "Zero"} -> Slots(K) [] OTHER -> <<sl>>
      ys == CASE op = "Ind" -> [i \in 1..K |-> r(0)] [] op = "Unp" -> <<r(0)>> [] OTHER -> [i \in 1..Len(xs) |-> Zero]
      deg == CASE op = "Ind" -> N - K [] op = "Unp" -> T [] OTHER -> N - 1
      more == deg + 1 - Len(xs)
  IN SharesOf(xs \o Pts(more), ys \o [i \in 1..more |-> r(i)], N)
DealMsg(p, op) ==
  LET d == [b \in 1..NB(op) |-> Deal(p, op, b)] IN [q \in P |-> [b \in 1..NB(op) |-> d[b][q]]]
(* extraction: row j of the Vandermonde matrix over all parties' sharings *)
Extract(rs, nb) ==
  Cat([b \in 1..nb |-> [j \in 1..(T + 1) |-> MDot(E, [q \in P |-> MPow(E, Int2F(q - 1), j - 1)], [q \in P |-> rs[q][b]])]], nb)

(* need[q]: how many values the operation consumes from q *)
Need(p, op, lay) ==
  CASE op = "IndR" -> All(N, NB("Ind")) [] op = "UnpR" -> All(N, NB("Unp")) [] op = "ZeroR" -> All(N, NB("Zero"))
    [] op = "ZProdR" -> All(N, NB("ZProd"))
    [] op = "ProdP1" -> IF p = 1 THEN All(N, K * nmb) ELSE Nobody(N)
    [] op = "ProdR" -> IF p > T THEN Only(N, 1, K * nmb) ELSE Nobody(N)
    [] op = "MultPrepP1" -> IF p = 1 THEN All(N, 2 * nmb) ELSE Nobody(N)
    [] op = "MultPrepR" -> Only(N, 1, 2 * nmb)
    [] op = "IOPrepR" -> All(N, Len(IOof(p)))
    [] op = "InP1" -> IF p = 1 THEN [q \in P |-> Len(GatesOf(c.G, "in", q))] ELSE Nobody(N)
    [] op = "PR" -> Only(N, 1, 2 * Len(c.lb[lay]))
    [] op = "P1R" -> IF p = 1 THEN All(N, Len(c.lb[lay])) ELSE Nobody(N)
    [] op = "OutR" -> Only(N, 1, Len(GatesOf(c.G, "out", p)))
    [] OTHER -> Nobody(N)

Ind(L, w) == IF w = 0 THEN Zero ELSE
             LET RECURSIVE H(_)
                 H(x) == CASE c.G[x].g = "add" -> Add(H(c.G[x].a), H(c.G[x].b))
                           [] c.G[x].g = "out" -> H(c.G[x].b)
                           [] OTHER -> L.ind[PosOf(x)]
             IN H(w)
MuAt(L, w) == IF w = 0 THEN Zero ELSE
              LET RECURSIVE H(_)
                  H(x) == CASE c.G[x].g = "add" -> Add(H(c.G[x].a), H(c.G[x].b))
                            [] c.G[x].g = "out" -> H(c.G[x].b)
                            [] OTHER -> L.mu[x]
              IN H(w)
Lft(w) == IF w = 0 THEN 0 ELSE c.G[w].a
Rgt(w) == IF w = 0 THEN 0 ELSE c.G[w].b
PerSlot(seq, i, len) == SubSeq(seq, (i - 1) * len + 1, i * len)
UA(L, i, b) == PerSlot(L.unp, i, NUnpBlocks(c) * (T + 1))[b]
UB(L, i, b) == PerSlot(L.unp, i, NUnpBlocks(c) * (T + 1))[nmb + b]
UM(L, i, b) == PerSlot(L.unp, i, NUnpBlocks(c) * (T + 1))[2 * nmb + b]
ZP(L, i, b) == PerSlot(L.zp, i, NZPBlocks(c) * (T + 1))[b]
PkA(L, p, b) == Pack(K, p, [i \in 1..K |-> UA(L, i, b)])
PkB(L, p, b) == Pack(K, p, [i \in 1..K |-> UB(L, i, b)])
PkI(L, p, gs) == Pack(K, p, [i \in 1..K |-> Ind(L, gs[i])])
Ozer(L, r, b) == L.zero[(r - 1) * nmb + b]
IOz(L, i) == L.zero[3 * nmb + i]
Reshare(ys) == SharesOf(Slots(K), SlotVals(ys, K), N)
Grid(f(_, _)) == [j \in 1..(K * nmb) |-> f(((j - 1) \div nmb) + 1, ((j - 1) % nmb) + 1)]

(* what the operation sends, and the party's knowledge after it *)
Eff(p, op, lay, L, r) ==
  CASE op = "IndS" -> [s |-> DealMsg(p, "Ind"), L |-> L]
    [] op = "UnpS" -> [s |-> DealMsg(p, "Unp"), L |-> L]
    [] op = "ZeroS" -> [s |-> DealMsg(p, "Zero"), L |-> L]
    [] op = "ZProdS" -> [s |-> DealMsg(p, "ZProd"), L |-> L]
    [] op = "IndR" -> [s |-> None, L |-> [L EXCEPT !.ind = Extract(r, NB("Ind"))]]
    [] op = "UnpR" -> [s |-> None, L |-> [L EXCEPT !.unp = Extract(r, NB("Unp"))]]
    [] op = "ZeroR" -> [s |-> None, L |-> [L EXCEPT !.zero = Extract(r, NB("Zero"))]]
    [] op = "ZProdR" -> [s |-> None, L |-> [L EXCEPT !.zp = Extract(r, NB("ZProd"))]]
    [] op = "ProdS" -> LET f(i, b) == Add(Mul(UA(L, i, b), UB(L, i, b)), Add(UM(L, i, b), ZP(L, i, b)))
                       IN [s |-> [None EXCEPT ![1] = Grid(f)], L |-> L]
    [] op = "ProdP1" ->
         IF p # 1 THEN [s |-> None, L |-> L]
         ELSE LET sh == [j \in 1..(K * nmb) |->
                           LET x == Slot(((j - 1) \div nmb) + 1)
                           IN SharesOf(<<x>> \o Pts(T), <<At([q \in P |-> r[q][j]], x)>> \o [i \in 1..T |-> Zero], N)]
              IN [s |-> [q \in P |-> IF q > T THEN [j \in 1..(K * nmb) |-> sh[j][q]] ELSE <<>>], L |-> L]
    [] op = "ProdR" ->
         LET v(i, b) == Sub(IF p > T THEN r[1][(i - 1) * nmb + b] ELSE Zero, UM(L, i, b))
         IN [s |-> None, L |-> [L EXCEPT !.c = [b \in 1..nmb |-> Pack(K, p, [i \in 1..K |-> v(i, b)])]]]
    [] op = "MultPrepS" ->
         [s |-> [None EXCEPT ![1] = Cat([b \in 1..nmb |->
                   << Add(PkI(L, p, [i \in 1..K |-> Lft(c.mb[b].g[i])]), Add(PkA(L, p, b), Ozer(L, 1, b))),
                      Add(PkI(L, p, [i \in 1..K |-> Rgt(c.mb[b].g[i])]), Add(PkB(L, p, b), Ozer(L, 2, b))) >>], nmb)],
          L |-> L]
    [] op = "MultPrepP1" ->
         IF p # 1 THEN [s |-> None, L |-> L]
         ELSE LET sh == [j \in 1..(2 * nmb) |-> Reshare([q \in P |-> r[q][j]])]
              IN [s |-> [q \in P |-> [j \in 1..(2 * nmb) |-> sh[j][q]]], L |-> L]
    [] op = "MultPrepR" -> [s |-> None, L |-> [L EXCEPT !.R = r[1]]]
    [] op = "IOPrepS" ->
         [s |-> [q \in P |-> [j \in 1..Len(IOof(q)) |->
                   LET i == IOof(q)[j] IN Add(PkI(L, p, c.io[i].g), IOz(L, i))]], L |-> L]
    [] op = "IOPrepR" ->
         [s |-> None,
          L |-> [L EXCEPT !.own =
                   LET pairs == { <<j, i>> \in (1..Len(IOof(p))) \X (1..K) : c.io[IOof(p)[j]].g[i] # 0 }
                   IN [w \in { c.io[IOof(p)[x[1]]].g[x[2]] : x \in pairs } |->
                        LET x == CHOOSE y \in pairs : c.io[IOof(p)[y[1]]].g[y[2]] = w
                        IN At([q \in P |-> r[q][x[1]]], Slot(x[2]))]]]
    [] op = "InS" ->
         LET gs == GatesOf(c.G, "in", p)
         IN [s |-> [None EXCEPT ![1] = [j \in 1..Len(gs) |-> Sub(c.inp[p][j], L.own[gs[j]])]], L |-> L]
    [] op = "InP1" ->
         IF p # 1 THEN [s |-> None, L |-> L]
         ELSE [s |-> None,
               L |-> [L EXCEPT !.mu = [w \in ToSet(Kind(c.G, "in")) |-> r[c.G[w].a][IndexOf(c.G, w)]]]]
    [] op = "P1S" ->
         IF p # 1 THEN [s |-> None, L |-> L]
         ELSE LET bs == c.lb[lay]
                  sh(h) == LET b == bs[((h - 1) \div 2) + 1]
                               gs == c.mb[b].g
                           IN SharesOf(Slots(K), [i \in 1..K |-> MuAt(L, IF h % 2 = 1 THEN Lft(gs[i]) ELSE Rgt(gs[i]))], N)
              IN [s |-> [q \in P |-> [h \in 1..(2 * Len(bs)) |-> sh(h)[q]]], L |-> L]
    [] op = "PR" -> [s |-> None, L |-> [L EXCEPT !.mAB = r[1]]]
    [] op = "PS" ->
         LET bs == c.lb[lay]
             v(x) == LET b == bs[x]
                         RA == L.R[2 * b - 1]
                         RB == L.R[2 * b]
                         a == PkA(L, p, b)
                         bb == PkB(L, p, b)
                         mA == L.mAB[2 * x - 1]
                         mB == L.mAB[2 * x]
                         delta == Add(Sub(Sub(Sub(Mul(RA, RB), Mul(RA, bb)), Mul(RB, a)), PkI(L, p, c.mb[b].g)),
                                      Add(L.c[b], Ozer(L, 3, b)))
                     IN Add(Add(Mul(mB, Sub(RA, a)), Mul(mA, Sub(RB, bb))), Add(Mul(mA, mB), delta))
         IN [s |-> [None EXCEPT ![1] = [x \in 1..Len(bs) |-> v(x)]], L |-> L]
    [] op = "P1R" ->
         IF p # 1 THEN [s |-> None, L |-> L]
         ELSE LET bs == c.lb[lay]
                  new == [w \in ToSet(MulsOf(c.G, lay)) |->
                            LET x == CHOOSE y \in 1..Len(bs) : w \in ToSet(c.mb[bs[y]].g)
                                i == CHOOSE y \in 1..K : c.mb[bs[x]].g[y] = w
                            IN At([q \in P |-> r[q][x]], Slot(i))]
              IN [s |-> None, L |-> [L EXCEPT !.mu = new @@ @]]
    [] op = "OutS" ->
         IF p # 1 THEN [s |-> None, L |-> L]
         ELSE [s |-> [q \in P |-> LET gs == GatesOf(c.G, "out", q) IN [j \in 1..Len(gs) |-> MuAt(L, gs[j])]], L |-> L]
    [] op = "OutR" ->
         LET gs == GatesOf(c.G, "out", p)
         IN [s |-> None, L |-> [L EXCEPT !.pr = [j \in 1..Len(gs) |-> Add(r[1][j], L.own[gs[j]])]]]
    [] OTHER -> [s |-> None, L |-> L]

Do(p, op, lay) ==
  LET need == Need(p, op, lay)
      r == [q \in P |-> SubSeq(chan[q][p], 1, need[q])]
      ef == Eff(p, op, lay, loc[p], r)
  IN /\ \A q \in P : Len(chan[q][p]) >= need[q]
     /\ loc' = [loc EXCEPT ![p] = ef.L]
     /\ chan' = [q \in P |-> [d \in P |->
          LET rest == IF d = p THEN SubSeq(chan[q][d], need[q] + 1, Len(chan[q][d])) ELSE chan[q][d]
          IN IF q = p THEN rest \o ef.s[d] ELSE rest]]
     /\ out' = IF op = "OutR" THEN [out EXCEPT ![p] = ef.L.pr] ELSE out
     /\ sched' = Append(sched, p)
     /\ cost' = [cost EXCEPT ![Phase(op)] = @ + SumInts([q \in 1..N |-> Len(ef.s[q])])]

Prog == Main(c.L)
StepMain(p) ==
  /\ pc[p] <= Len(Prog)
  /\ (HALVES /\ pc[p] = 5) => half[p] = 5          \* both halves of the first phase are over
  /\ Do(p, Prog[pc[p]][1], Prog[pc[p]][2])
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<seed, c, half>>
StepHalf(p) ==
  /\ half[p] <= 4
  /\ Do(p, FIrecv[half[p]], 0)
  /\ half' = [half EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<seed, c, pc>>
AllDone == \A p \in P : pc[p] > Len(Prog)
Stop == AllDone /\ UNCHANGED vars
Next == (\E p \in P : StepMain(p) \/ StepHalf(p)) \/ Stop

------------------------------------------------------------------------------
FIdone == \A p \in P : Len(loc[p].c) = nmb /\ (pc[p] > 5)
Mask(w) == At([p \in P |-> Ind(loc[p], w)], 0)
AllIn == \A p \in P : half[p] = 5 /\ Len(loc[p].ind) > 0

Correct == AllDone => \A p \in P : out[p] = OutVals(c, p)
Costs == AllDone => cost = Cost(c)
Drained == AllDone => \A p, q \in P : chan[p][q] = <<>>
(* whatever P1 has learned is value minus mask *)
Online == DOMAIN loc[1].mu # {} =>
            \A w \in DOMAIN loc[1].mu : Add(loc[1].mu[w], Mask(w)) = c.val[w]
Triples == (\A p \in P : Len(loc[p].c) = nmb /\ Len(loc[p].zero) > 0 /\ nmb > 0) =>
             \A b \in 1..nmb : \A i \in 1..K :
               /\ At([p \in P |-> loc[p].c[b]], Slot(i))
                    = Mul(At([p \in P |-> PkA(loc[p], p, b)], Slot(i)), At([p \in P |-> PkB(loc[p], p, b)], Slot(i)))
               /\ \A r \in 1..3 : At([p \in P |-> Ozer(loc[p], r, b)], Slot(i)) = Zero
OwnMasks == \A p \in P : \A w \in DOMAIN loc[p].own : loc[p].own[w] = Mask(w)
EnoughOfEach == \A p \in P : /\ Len(loc[p].ind) > 0 => Len(loc[p].ind) >= c.nind
                             /\ Len(loc[p].zero) > 0 => Len(loc[p].zero) >= 3 * nmb + Len(c.io)
Emit == AllDone => PrintT("SCHED " \o ToJson(<<c.G, c.L, sched>>))
=============================================================================
