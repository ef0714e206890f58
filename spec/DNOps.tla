-------------------------------- MODULE DNOps --------------------------------
(***************************************************************************)
(* The DN07 protocol (n = 2t+1): what the operations of a party exchange   *)
(* and what the shares mean.  lg[p][<<op, layer>>] holds everything party  *)
(* p sent ([s][q]) and received ([r][q]) in an operation; the shares the   *)
(* parties hold of every wire are given by sh[p][wire].                    *)
(***************************************************************************)
EXTENDS Circ, TLC

DNCtx(T) ==
  LET G == IF T.cfg.is THEN FromConfig(T.cfg.inp, T.cfg.out, T.cfg.width, T.cfg.depth) ELSE T.gates
  IN [ n |-> T.n, t |-> T.t, L |-> T.layers, G |-> G, dealt |-> T.variant = "sep",
       val |-> Vals(G, T.inputs),
       ins |-> [q \in 1..T.n |-> GatesOf(G, "in", q)],
       ous |-> [q \in 1..T.n |-> GatesOf(G, "out", q)],
       lay |-> [y \in 1..T.layers |-> MulsOf(G, y)],
       mus |-> Cat([y \in 1..T.layers |-> MulsOf(G, y)], T.layers) ]
DNOut(c, p) == [i \in 1..Len(c.ous[p]) |-> c.val[c.ous[p][i]]]

Lens(v) == [q \in 1..Len(v) |-> Len(v[q])]
Head1(c, m) == [q \in 1..c.n |-> IF q <= c.t + 1 THEN m ELSE 0]      \* the first t+1 parties
Last1(c, m) == [q \in 1..c.n |-> IF q > c.t + 1 THEN m ELSE 0]       \* the last t parties
None1(c) == [q \in 1..c.n |-> 0]
To1(c, m) == [q \in 1..c.n |-> IF q = 1 THEN m ELSE 0]
Each(c, f) == [q \in 1..c.n |-> Len(f[q])]
Same1(c, m) == [q \in 1..c.n |-> m]
If1(b, c, v) == IF b THEN v ELSE None1(c)
NR(c) == CeilDiv(Len(Kind(c.G, "in")), c.t + 1)
ND(c) == CeilDiv(Len(c.mus), c.t + 1)
Low(c, p) == p <= c.t + 1

(* numbers of values party p sends and receives in an operation: [s, r] *)
Flow(c, p, op, y) ==
  LET m == Len(c.mus)
      z == None1(c)
  IN CASE op = "PrepS" -> [s |-> Same1(c, NR(c) + 2 * ND(c)), r |-> z]
       [] op = "PrepR" -> [s |-> z, r |-> Same1(c, NR(c) + 2 * ND(c))]
       [] op = "Map" -> [s |-> z, r |-> z]
       [] op = "FDS" -> [s |-> If1(~Low(c, p), c, To1(c, m)), r |-> z]
       [] op = "FDR" -> [s |-> z, r |-> If1(p = 1, c, Last1(c, m))]
       [] op = "InS" -> [s |-> If1(Low(c, p), c, Each(c, c.ins)), r |-> z]
       [] op = "InO" -> [s |-> Head1(c, Len(c.ins[p])), r |-> Head1(c, Len(c.ins[p]))]
       [] op = "InR" -> [s |-> z, r |-> If1(Low(c, p), c, Each(c, c.ins))]
       [] op = "MS" -> [s |-> If1(Low(c, p), c, To1(c, Len(c.lay[y]))), r |-> z]
       [] op = "MP1R" -> [s |-> z, r |-> If1(p = 1, c, Head1(c, Len(c.lay[y])))]
       [] op = "MP1S" -> [s |-> If1(p = 1, c, Head1(c, Len(c.lay[y]))), r |-> z]
       [] op = "MP1" -> [s |-> If1(p = 1, c, Head1(c, Len(c.lay[y]))), r |-> If1(p = 1, c, Head1(c, Len(c.lay[y])))]
       [] op = "MR" -> [s |-> z, r |-> If1(Low(c, p), c, To1(c, Len(c.lay[y])))]
       [] op = "OutS" -> [s |-> If1(Low(c, p), c, Each(c, c.ous)), r |-> z]
       [] op = "OutR" -> [s |-> z, r |-> Head1(c, Len(c.ous[p]))]
       [] OTHER -> [s |-> <<>>, r |-> <<>>]

(* what p deals in the preprocessing *)
DNDealOk(c, r) ==
  LET n == c.n
      t == c.t
      v(b) == [q \in 1..n |-> r.s[q][b]]
      one == NR(c)
      two == ND(c)
      D(i) == v(one + 2 * i - 1)
      DD(i) == v(one + 2 * i)
      shares == IF t = 0 THEN [b \in 1..one |-> r.s[1][b]] \o [i \in 1..two |-> r.s[1][one + 2 * i - 1]]
                ELSE MFlat([b \in 1..(one + 2 * two) |-> v(b)])
                     \o [b \in 1..one |-> At(v(b), 0)] \o [i \in 1..two |-> At(D(i), 0)]
  IN /\ \A b \in 1..one : FullDeg(v(b), t)
     /\ \A i \in 1..two : /\ FullDeg(D(i), t)
                          /\ FullDeg(DD(i), 2 * t)
                          /\ At(D(i), 0) = At(DD(i), 0)
     /\ Distinct0(shares)
     /\ t > 0 => Distinct0([b \in 1..one |-> Lead(v(b), t)] \o [i \in 1..two |-> Lead(D(i), t)] \o [i \in 1..two |-> Lead(DD(i), 2 * t)])

(* the owner of inputs: reconstructs the mask and hands out a sharing of value - mask, zero at the last t parties *)
InOwnerOk(c, p, r) ==
  \A j \in 1..Len(c.ins[p]) :
    LET mask == At([q \in 1..(c.t + 1) |-> r.r[q][j]], 0)
        vec == [q \in 1..c.n |-> IF Low(c, q) THEN r.s[q][j] ELSE Zero]
    IN DegLe(vec, c.t) /\ At(vec, 0) = Sub(c.val[c.ins[p][j]], mask)

IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
(* the first party's dealings with the multiplications *)
Vecs(c, lg, sh, w) ==
  LET y == c.G[w].lay
      j == IndexIn(c.lay[y], w)
      m == IndexIn(c.mus, w)
      wh == <<"MP1", y>> \in DOMAIN lg[1]
      rk == IF wh THEN <<"MP1", y>> ELSE <<"MP1R", y>>
      sk == IF wh THEN <<"MP1", y>> ELSE <<"MP1S", y>>
  IN [ open |-> [q \in 1..c.n |-> IF Low(c, q) THEN lg[1][rk].r[q][j] ELSE lg[1][<<"FDR", 0>>].r[q][m]],
       sent |-> [q \in 1..c.n |-> IF Low(c, q) THEN lg[q][<<"MS", y>>].s[1][j] ELSE lg[q][<<"FDS", 0>>].s[1][m]],
       hand |-> [q \in 1..c.n |-> IF Low(c, q) THEN lg[1][sk].s[q][j] ELSE Zero],
       lo |-> [q \in 1..c.n |-> IF Low(c, q) THEN Sub(sh[q][w], lg[q][<<"MR", y>>].r[1][j]) ELSE sh[q][w]],
       prod |-> [q \in 1..c.n |-> Mul(sh[q][c.G[w].a], sh[q][c.G[w].b])] ]
SubV(a, b) == [q \in 1..Len(a) |-> Sub(a[q], b[q])]
InMask(c, lg, sh, w) ==
  LET o == c.G[w].a
      j == IndexIn(c.ins[o], w)
  IN [q \in 1..c.n |-> IF Low(c, q) THEN lg[q][<<"InS", 0>>].s[o][j] ELSE sh[q][w]]

(* D03: every wire is shared with degree t and the right secret; products are opened minus a mask *)
WiresOk(c, sh) ==
  \A w \in 1..Len(c.G) : LET v == [q \in 1..c.n |-> sh[q][w]] IN DegLe(v, c.t) /\ At(v, 0) = c.val[w]
MultsOk(c, lg, sh) ==
  \A i \in 1..Len(c.mus) :
    \A x \in { MDeep(Vecs(c, lg, sh, c.mus[i])) } :
      /\ x.open = x.sent
      /\ DegLe(x.open, 2 * c.t)
      /\ DegLe(x.hand, c.t) /\ At(x.hand, 0) = At(x.open, 0)
      /\ Add(At(x.open, 0), At(x.lo, 0)) = c.val[c.mus[i]]

(* D02: the masks and double sharings behind the wires *)
PrepOk(c, lg, sh) ==
  LET ins == Kind(c.G, "in")
      ms == MDeep([i \in 1..Len(ins) |-> InMask(c, lg, sh, ins[i])])
      xs == MDeep([i \in 1..Len(c.mus) |-> LET x == Vecs(c, lg, sh, c.mus[i]) IN [lo |-> x.lo, hi |-> SubV(x.prod, x.sent)]])
  IN /\ \A i \in 1..Len(ms) : DegLe(ms[i], c.t)
     /\ \A i \in 1..Len(xs) : /\ DegLe(xs[i].lo, c.t)
                              /\ DegLe(xs[i].hi, 2 * c.t)
                              /\ At(xs[i].lo, 0) = At(xs[i].hi, 0)
     /\ c.dealt =>
          /\ Distinct0([i \in 1..Len(ms) |-> At(ms[i], 0)] \o [i \in 1..Len(xs) |-> At(xs[i].lo, 0)])
          /\ c.t > 0 => Distinct0([i \in 1..Len(ms) |-> Lead(ms[i], c.t)] \o [i \in 1..Len(xs) |-> Lead(xs[i].lo, c.t)]
                                  \o [i \in 1..Len(xs) |-> Lead(xs[i].hi, 2 * c.t)])
=============================================================================
