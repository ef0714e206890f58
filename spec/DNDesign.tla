------------------------------ MODULE DNDesign ------------------------------
(***************************************************************************)
(* DN07 as a transition system over a small field (see TPDesign): n = 2t+1 *)
(* parties, FIFO channels, one transition per operation, all interleavings.*)
(* With FUSED, operations that only send or only compute are taken by a    *)
(* party immediately (they commute with everything other parties do),      *)
(* which makes larger n explorable.                                        *)
(***************************************************************************)
EXTENDS DNOps, Json
CONSTANTS N, T, SEEDS, CIRCS, FUSED

g(kd, a, b, y) == [g |-> kd, a |-> a, b |-> b, lay |-> y]
Circuits ==
  << [L |-> 1, G |-> << g("in",1,0,0), g("in",2,0,0), g("mul",1,2,1), g("add",3,1,0), g("out",2,4,0), g("out",1,3,0) >>],
     [L |-> 2, G |-> << g("in",1,0,0), g("in",N,0,0), g("in",1,0,0), g("add",1,2,0), g("mul",4,3,1), g("mul",1,1,1),
                        g("mul",2,3,1), g("add",5,6,0), g("mul",8,7,2), g("out",N,9,0), g("out",N,8,0), g("out",1,2,0) >>],
     [L |-> 2, G |-> << g("in",1,0,0), g("mul",1,1,2), g("out",1,2,0) >>],
     [L |-> 1, G |-> << >>] >>

Rnd(seed, p, tag, b, i) ==
  Int2F(((seed * 7919 + p * 104729 + tag * 1299709 + b * 15485 + i * 3571 + ((seed + p * 3 + b * 5 + i * 7 + tag) * (seed + 11 * i + b + 2 * p)) * 13)
          % 10007) * 3 + i)

Prog(L) == << <<"PrepS", 0>>, <<"PrepR", 0>>, <<"Map", 0>>, <<"FDS", 0>>, <<"FDR", 0>>, <<"InS", 0>>, <<"InO", 0>>, <<"InR", 0>> >>
           \o Cat([y \in 1..L |-> << <<"MS", y>>, <<"MP1R", y>>, <<"MP1S", y>>, <<"MR", y>> >>], L)
           \o << <<"OutS", 0>>, <<"OutR", 0>> >>

VARIABLES seed, c, pc, chan, loc, out, sched
vars == <<seed, c, pc, chan, loc, out, sched>>
P == 1..N
NoHist == <<seed, c.id, pc>>     \* everything else is a function of these: operations of different parties commute

Inputs(G, s) == [p \in P |-> [j \in 1..Len(GatesOf(G, "in", p)) |-> Rnd(s, p, 99, j, 0)]]
Ctx(ci, s) ==
  LET x == MDeep(DNCtx([n |-> N, t |-> T, layers |-> Circuits[ci].L, gates |-> Circuits[ci].G, variant |-> "sep",
                        cfg |-> [is |-> FALSE], inputs |-> Inputs(Circuits[ci].G, s)]))
  IN x @@ [id |-> ci, inp |-> Inputs(Circuits[ci].G, s)]

Init ==
  \E s \in SEEDS, ci \in CIRCS :
    /\ seed = s /\ c = Ctx(ci, s)
    /\ pc = [p \in P |-> 1]
    /\ chan = [p \in P |-> [q \in P |-> <<>>]]
    \* r, d, dd: extracted shares; sh: shares of input and multiplication wires; fd: what the last parties sent to P1
    /\ loc = [p \in P |-> [r |-> <<>>, d |-> <<>>, dd |-> <<>>, sh |-> <<>>, fd |-> <<>>, hand |-> <<>>, out |-> <<>>]]
    /\ out = [p \in P |-> <<>>]
    /\ sched = <<>>

None == [q \in P |-> <<>>]
Ins == Cat(c.ins, N)      \* masks are consumed owner by owner, in declaration order
RIdx(w) == IndexIn(Ins, w)
DIdx(w) == IndexIn(c.mus, w)
RECURSIVE Sh(_, _)
Sh(L, w) == CASE c.G[w].g = "add" -> Add(Sh(L, c.G[w].a), Sh(L, c.G[w].b)) [] c.G[w].g = "out" -> Sh(L, c.G[w].b) [] OTHER -> L.sh[w]
MaskSh(L, w) == Sub(Mul(Sh(L, c.G[w].a), Sh(L, c.G[w].b)), L.dd[DIdx(w)])
(* a sharing of degree t that is zero at the last t parties *)
Thin(v) == SharesOf(<<0>> \o [i \in 1..T |-> T + 1 + i], <<v>> \o [i \in 1..T |-> Zero], N)
ToLow(f(_)) == [q \in P |-> IF q <= T + 1 THEN f(q) ELSE <<>>]
ExtractRow(r, i) == [j \in 1..(T + 1) |-> MDot(E, [q \in P |-> MPow(E, Int2F(q - 1), j - 1)], [q \in P |-> r[q][i]])]
DealPoly(p, b, tag, s, deg) == SharesOf(<<0>> \o Pts(deg), <<s>> \o [i \in 1..deg |-> Rnd(seed, p, tag, b, i)], N)

Eff(p, op, y, L, r) ==
  CASE op = "PrepS" ->
         LET a == [b \in 1..NR(c) |-> DealPoly(p, b, 1, Rnd(seed, p, 1, b, 0), T)]
             d == [b \in 1..ND(c) |-> DealPoly(p, b, 2, Rnd(seed, p, 2, b, 0), T)]
             e == [b \in 1..ND(c) |-> DealPoly(p, b, 3, Rnd(seed, p, 2, b, 0), 2 * T)]
         IN [s |-> [q \in P |-> [b \in 1..NR(c) |-> a[b][q]] \o Cat([b \in 1..ND(c) |-> <<d[b][q], e[b][q]>>], ND(c))], L |-> L]
    [] op = "PrepR" ->
         [s |-> None,
          L |-> [L EXCEPT !.r = Cat([b \in 1..NR(c) |-> ExtractRow(r, b)], NR(c)),
                          !.d = Cat([b \in 1..ND(c) |-> ExtractRow(r, NR(c) + 2 * b - 1)], ND(c)),
                          !.dd = Cat([b \in 1..ND(c) |-> ExtractRow(r, NR(c) + 2 * b)], ND(c))]]
    [] op = "FDS" ->
         IF Low(c, p) THEN [s |-> None, L |-> L]
         ELSE LET sh == [w \in ToSet(Ins) |-> L.r[RIdx(w)]] @@ [w \in ToSet(c.mus) |-> L.d[DIdx(w)]]
                  L2 == [L EXCEPT !.sh = sh]
              IN [s |-> [None EXCEPT ![1] = [i \in 1..Len(c.mus) |-> MaskSh(L2, c.mus[i])]], L |-> L2]
    [] op = "FDR" -> [s |-> None, L |-> IF p = 1 THEN [L EXCEPT !.fd = r] ELSE L]
    [] op = "InS" ->
         [s |-> IF Low(c, p) THEN [q \in P |-> [j \in 1..Len(c.ins[q]) |-> L.r[RIdx(c.ins[q][j])]]] ELSE None, L |-> L]
    [] op = "InO" ->
         LET th == [j \in 1..Len(c.ins[p]) |-> Thin(Sub(c.inp[p][j], At([q \in 1..(T + 1) |-> r[q][j]], 0)))]
             f(q) == [j \in 1..Len(c.ins[p]) |-> th[j][q]]
         IN [s |-> ToLow(f), L |-> L]
    [] op = "InR" ->
         [s |-> None,
          L |-> IF ~Low(c, p) THEN L
                ELSE [L EXCEPT !.sh = [w \in ToSet(Ins) |-> Add(r[c.G[w].a][IndexIn(c.ins[c.G[w].a], w)], L.r[RIdx(w)])]]]
    [] op = "MS" ->
         [s |-> IF Low(c, p) THEN [None EXCEPT ![1] = [j \in 1..Len(c.lay[y]) |-> MaskSh(L, c.lay[y][j])]] ELSE None, L |-> L]
    [] op = "MP1R" ->
         [s |-> None,
          L |-> IF p # 1 THEN L
                ELSE [L EXCEPT !.hand = [j \in 1..Len(c.lay[y]) |->
                        Thin(At([q \in P |-> IF Low(c, q) THEN r[q][j] ELSE L.fd[q][DIdx(c.lay[y][j])]], 0))]]]
    [] op = "MP1S" ->
         LET f(q) == [j \in 1..Len(c.lay[y]) |-> L.hand[j][q]]
         IN [s |-> IF p = 1 THEN ToLow(f) ELSE None, L |-> L]
    [] op = "MR" ->
         [s |-> None,
          L |-> IF ~Low(c, p) THEN L
                ELSE [L EXCEPT !.sh = [w \in ToSet(c.lay[y]) |-> Add(r[1][IndexIn(c.lay[y], w)], L.d[DIdx(w)])] @@ @]]
    [] op = "OutS" ->
         [s |-> IF Low(c, p) THEN [q \in P |-> [j \in 1..Len(c.ous[q]) |-> Sh(L, c.ous[q][j])]] ELSE None, L |-> L]
    [] op = "OutR" ->
         [s |-> None, L |-> [L EXCEPT !.out = [j \in 1..Len(c.ous[p]) |-> At([q \in 1..(T + 1) |-> r[q][j]], 0)]]]
    [] OTHER -> [s |-> None, L |-> L]

Do(p, op, y) ==
  LET need == Flow(c, p, op, y).r
      r == [q \in P |-> SubSeq(chan[q][p], 1, need[q])]
      ef == MDeep(Eff(p, op, y, loc[p], r))
  IN /\ \A q \in P : Len(chan[q][p]) >= need[q]
     /\ loc' = [loc EXCEPT ![p] = ef.L]
     /\ chan' = MDeep([q \in P |-> [d \in P |->
          LET rest == IF d = p THEN SubSeq(chan[q][d], need[q] + 1, Len(chan[q][d])) ELSE chan[q][d]
          IN IF q = p THEN rest \o ef.s[d] ELSE rest]])
     /\ out' = IF op = "OutR" THEN [out EXCEPT ![p] = ef.L.out] ELSE out
     /\ sched' = Append(sched, p)

Pr == Prog(c.L)
Local(p) == pc[p] <= Len(Pr) /\ Flow(c, p, Pr[pc[p]][1], Pr[pc[p]][2]).r = None1(c)
First == CHOOSE p \in P : Local(p) /\ \A q \in P : Local(q) => p <= q
Step(p) ==
  /\ pc[p] <= Len(Pr)
  /\ (FUSED /\ \E q \in P : Local(q)) => p = First
  /\ Do(p, Pr[pc[p]][1], Pr[pc[p]][2])
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<seed, c>>
AllDone == \A p \in P : pc[p] > Len(Pr)
Stop == AllDone /\ UNCHANGED vars
Next == (\E p \in P : Step(p)) \/ Stop

------------------------------------------------------------------------------
Correct == AllDone => \A p \in P : out[p] = DNOut(c, p)
Drained == AllDone => \A p, q \in P : chan[p][q] = <<>>
(* matching double sharings, masks of degree t *)
Doubles == (\A p \in P : pc[p] > 2) =>
  /\ \A i \in 1..Len(Ins) : DegLe([p \in P |-> loc[p].r[i]], T)
  /\ \A i \in 1..Len(c.mus) : LET lo == [p \in P |-> loc[p].d[i]]
                                  hi == [p \in P |-> loc[p].dd[i]]
                              IN DegLe(lo, T) /\ DegLe(hi, 2 * T) /\ At(lo, 0) = At(hi, 0)
(* a wire every party has a share of is shared with degree t and the right secret *)
Wires == \A w \in 1..Len(c.G) :
  (\A p \in P : w \in DOMAIN loc[p].sh) =>
     LET v == [p \in P |-> loc[p].sh[w]] IN DegLe(v, T) /\ At(v, 0) = c.val[w]
Emit == AllDone => PrintT("SCHED " \o ToJson(<<c.G, c.L, sched>>))
=============================================================================
