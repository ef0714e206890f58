------------------------------ MODULE CircAPI ------------------------------
(***************************************************************************)
(* The public interface of a circuit as a state machine.  A call is        *)
(* [op, a]; Apply(st, call) gives its result [ok, v] (ok = FALSE: refused  *)
(* by an exception) and the state after it.  A refused call leaves the     *)
(* state as it is.  Client, gate and slot indices in calls are the         *)
(* implementation's 0-based ones, gate numbers count declarations from 1.  *)
(***************************************************************************)
EXTENDS Circ, TLC

Fresh == [n |-> 0, k |-> 0, G |-> <<>>, L |-> 1, last |-> FALSE, inC |-> FALSE, outC |-> FALSE, net |-> FALSE,
          corr |-> FALSE, thr |-> -1, cin |-> <<>>, mu |-> <<>>, sin |-> <<>>, stage |-> "", dthr |-> -1,
          ib |-> <<>>, ob |-> <<>>, mb |-> <<>>]

Gate(g, a, b, lay) == [g |-> g, a |-> a, b |-> b, lay |-> lay]
Unset == <<>>
NIn(st) == Len(Kind(st.G, "in"))
InOf(st, p) == GatesOf(st.G, "in", p)        \* p 1-based
OutOf(st, p) == GatesOf(st.G, "out", p)

(* values where defined (Unset otherwise), for leaves given by the function L *)
RECURSIVE EvalFrom(_, _, _, _, _)
EvalFrom(G, L, mulLeaf, i, acc) ==
  IF i > Len(G) THEN acc
  ELSE LET g == G[i]
           v == CASE g.g = "in" \/ (g.g = "mul" /\ mulLeaf) -> L[i]
                  [] g.g = "out" -> acc[g.b]
                  [] OTHER -> IF acc[g.a] = Unset \/ acc[g.b] = Unset THEN Unset
                              ELSE IF g.g = "add" THEN Add(acc[g.a], acc[g.b]) ELSE Mul(acc[g.a], acc[g.b])
       IN EvalFrom(G, L, mulLeaf, i + 1, Append(acc, v))
Clear(cin, G) == EvalFrom(G, cin, FALSE, 1, <<>>)
MuVals(st) == EvalFrom(st.G, st.mu, TRUE, 1, <<>>)

Ok(v, st) == [ok |-> TRUE, v |-> v, st |-> st]
No(st) == [ok |-> FALSE, v |-> 0, st |-> st]
If(c, v, st2, st) == IF c THEN Ok(v, st2) ELSE No(st)

WithGate(st, g) == [st EXCEPT !.G = Append(@, g), !.cin = [r \in DOMAIN @ |-> Append(@[r], Unset)], !.mu = Append(@, Unset)]
NewCircuit(n, k) == [Fresh EXCEPT !.n = n, !.k = k, !.cin = [r \in 1..n |-> <<>>]]

(* inputs of client p, in its declaration order, as leaves *)
Place(st, old, ins) == [i \in 1..Len(st.G) |-> IF st.G[i].g = "in" THEN ins[st.G[i].a][IndexOf(st.G, i)] ELSE Unset]
SplitFlat(st, f) ==
  LET before(p) == SumInts([q \in 1..(p - 1) |-> Len(InOf(st, q))])
  IN [p \in 1..st.n |-> SubSeq(f, before(p) + 1, before(p) + Len(InOf(st, p)))]

LayerSizes(st) == [l \in 1..st.L |-> Len(MulsOf(st.G, l))]
MaxOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= x
Batched(len, k) == NChunks(len, k)
Metrics(st) ==
  LET sz == LayerSizes(st) IN
  << st.L, MaxOf(sz), SumInts(sz), NIn(st), Len(Kind(st.G, "out")),
     SumInts([p \in 1..st.n |-> Batched(Len(InOf(st, p)), st.k)]),
     SumInts([p \in 1..st.n |-> Batched(Len(OutOf(st, p)), st.k)]),
     SumInts([l \in 1..st.L |-> Batched(sz[l], st.k)]) >>

AllBatches(st) ==   \* as records like the recorded ones
  LET io(b) == [kind |-> b.kind, own |-> b.own, g |-> b.g, pad |-> TRUE]
      ib == InBatches(st.G, st.n, st.k)
      ob == OutBatches(st.G, st.n, st.k)
      mb == MulBatches(st.G, st.L, st.k)
  IN [i \in 1..Len(ib) |-> io(ib[i])] \o [i \in 1..Len(ob) |-> io(ob[i])]
     \o [i \in 1..Len(mb) |-> [kind |-> "mul", own |-> 0, g |-> mb[i].g, pad |-> TRUE]]
SeqBag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

(* parameters of the synthetic generator: parties batch width depth |inp| inp |out| out *)
CfgOf(a) ==
  LET ni == a[5]
      inp == SubSeq(a, 6, 5 + ni)
      no == a[6 + ni]
  IN [n |-> a[1], k |-> a[2], width |-> a[3], depth |-> a[4], inp |-> inp, out |-> SubSeq(a, 7 + ni, 6 + ni + no)]
CfgOk(f) ==
  LET s == SumInts(f.inp) IN
  /\ Len(f.inp) = f.n /\ Len(f.out) = f.n
  /\ s > 0 /\ f.width > 0 /\ f.depth > 0
  /\ f.width % s = 0 /\ s % 2 = 0
Generated(f) ==
  LET G == FromConfig(f.inp, f.out, f.width, f.depth) IN
  [NewCircuit(f.n, f.k) EXCEPT !.G = G, !.L = f.depth, !.last = TRUE, !.inC = TRUE, !.outC = TRUE,
                               !.cin = [r \in 1..f.n |-> [i \in 1..Len(G) |-> Unset]], !.mu = [i \in 1..Len(G) |-> Unset]]

ThrOk(st, t) == st.n = t + 2 * (st.k - 1) + 1 /\ st.n > 2 * t
Secure(st) == \A p \in 1..st.n : Len(st.sin[p]) = 1
OutVals(st, p) == LET v == Clear(Place(st, 0, [q \in 1..st.n |-> st.sin[q][1]]), st.G) IN [i \in 1..Len(OutOf(st, p)) |-> v[OutOf(st, p)[i]]]
 (* multiplications use wires of earlier layers only, as the protocols need *)
RECURSIVE LevelsFrom(_, _, _)
LevelsFrom(G, i, acc) ==
  IF i > Len(G) THEN acc
  ELSE LET g == G[i]
           v == CASE g.g = "in" -> 0 [] g.g = "mul" -> g.lay [] g.g = "out" -> acc[g.b]
                  [] OTHER -> IF acc[g.a] > acc[g.b] THEN acc[g.a] ELSE acc[g.b]
       IN LevelsFrom(G, i + 1, Append(acc, v))
NoMu(st) == \A i \in 1..Len(st.G) : st.mu[i] = Unset
Layered(G) == LET v == LevelsFrom(G, 1, <<>>) IN \A i \in 1..Len(G) : 
                 /\ G[i].g = "mul" => v[G[i].a] < G[i].lay /\ v[G[i].b] < G[i].lay
                 /\ G[i].g \in {"add", "mul"} => G[G[i].a].g # "out" /\ G[G[i].b].g # "out"    \* outputs are not operands
                 /\ G[i].g = "out" => G[G[i].b].g # "out" 
Ready(st) == st.outC /\ st.inC /\ st.last /\ st.net

Apply(st, c) ==
  LET a == c.a IN
  CASE c.op = "circuit" -> Ok(0, NewCircuit(a[1], a[2]))
    [] c.op = "cfg" -> IF CfgOk(CfgOf(a)) THEN Ok(0, Generated(CfgOf(a))) ELSE No(st)
    [] c.op = "in" -> Ok(0, WithGate(st, Gate("in", a[1] + 1, 0, 0)))
    [] c.op = "add" -> Ok(0, WithGate(st, Gate("add", a[1], a[2], 0)))
    [] c.op = "mul" -> Ok(0, WithGate(st, Gate("mul", a[1], a[2], st.L)))
    [] c.op = "out" -> Ok(0, WithGate(st, Gate("out", a[1] + 1, a[2], 0)))
    [] c.op = "layer" -> Ok(0, [st EXCEPT !.L = @ + 1])
    [] c.op = "last" -> Ok(0, [st EXCEPT !.last = TRUE])
    [] c.op = "closein" -> Ok(0, [st EXCEPT !.inC = TRUE])
    [] c.op = "closeout" -> Ok(0, [st EXCEPT !.outC = TRUE])
    [] c.op = "net" -> If(st.outC, 0, [st EXCEPT !.net = TRUE, !.sin = [p \in 1..st.n |-> <<>>]], st)
    [] c.op = "corr" -> If(st.net, 0, [st EXCEPT !.corr = TRUE], st)
    [] c.op = "thr" -> If(st.corr /\ ThrOk(st, a[1]), 0, [st EXCEPT !.thr = a[1]], st)
    [] c.op = "setclear" ->
         If(Len(a[3]) = st.n /\ \A p \in 1..st.n : Len(a[3][p]) = Len(InOf(st, p)), 0,
            [st EXCEPT !.cin[a[1] + 1] = Place(st, @, a[3])], st)
    [] c.op = "setflat" -> Ok(0, [st EXCEPT !.cin[a[1] + 1] = Place(st, @, SplitFlat(st, a[3]))])
    [] c.op = "gin" -> Ok(0, [st EXCEPT !.cin[a[1] + 1][a[2]] = a[3][1]])
    [] c.op = "getclear" -> LET v == Clear(st.cin[a[1] + 1], st.G)[a[2]] IN If(v # Unset, v, st, st)
    [] c.op = "outs" ->
         LET v == Clear(st.cin[a[1] + 1], st.G)
             os == [p \in 1..st.n |-> [i \in 1..Len(OutOf(st, p)) |-> v[OutOf(st, p)[i]]]]
         IN If(\A p \in 1..st.n : \A i \in 1..Len(os[p]) : os[p][i] # Unset, os, st, st)
    [] c.op = "outsflat" ->
         LET v == Clear(st.cin[a[1] + 1], st.G)
             ks == Kind(st.G, "out")
             os == [i \in 1..Len(ks) |-> v[ks[i]]]
         IN If(\A i \in 1..Len(os) : os[i] # Unset, os, st, st)
    [] c.op = "mu" -> Ok(0, [st EXCEPT !.mu[a[1]] = a[2][1]])
    [] c.op = "getmu" -> LET v == MuVals(st)[a[1]] IN If(v # Unset, v, st, st)
    [] c.op = "learned" -> Ok(IF st.mu[a[1]] # Unset THEN 1 ELSE 0, st)
    [] c.op = "metrics" -> Ok(Metrics(st), st)
    [] c.op = "lookin" -> Ok(<<InOf(st, a[1] + 1)[a[2] + 1], a[1]>>, st)
    [] c.op = "lookout" -> Ok(<<OutOf(st, a[1] + 1)[a[2] + 1], a[1]>>, st)
    [] c.op = "lookinf" -> LET g == Kind(st.G, "in")[a[1] + 1] IN Ok(<<g, st.G[g].a - 1>>, st)
    [] c.op = "lookoutf" -> LET g == Kind(st.G, "out")[a[1] + 1] IN Ok(<<g, st.G[g].a - 1>>, st)
    [] c.op = "lookmul" -> Ok(<<MulsOf(st.G, a[1] + 1)[a[2] + 1]>>, st)
    [] c.op = "parents" ->
         LET g == st.G[a[1]] IN
         Ok(CASE g.g = "in" -> <<0, 0>> [] g.g = "out" -> <<g.b, 0>> [] OTHER -> <<g.a, g.b>>, st)
    [] c.op = "batches" -> Ok(AllBatches(st), st)
    [] c.op = "ibatch" -> Ok(0, [st EXCEPT !.ib = Append(@, [own |-> a[1], k |-> a[2], c |-> 0])])
    [] c.op = "obatch" -> Ok(0, [st EXCEPT !.ob = Append(@, [own |-> a[1], k |-> a[2], c |-> 0])])
    [] c.op = "mbatch" -> Ok(0, [st EXCEPT !.mb = Append(@, [own |-> 0, k |-> a[1], c |-> 0])])
    [] c.op = "iapp" -> LET b == st.ib[a[1] + 1] IN
                        If(b.c < b.k /\ b.own = a[2], IF b.c + 1 < b.k THEN 1 ELSE 0, [st EXCEPT !.ib[a[1] + 1].c = @ + 1], st)
    [] c.op = "oapp" -> LET b == st.ob[a[1] + 1] IN
                        If(b.c < b.k /\ b.own = a[2], IF b.c + 1 < b.k THEN 1 ELSE 0, [st EXCEPT !.ob[a[1] + 1].c = @ + 1], st)
    [] c.op = "mapp" -> LET b == st.mb[a[1] + 1] IN
                        If(b.c < b.k, IF b.c + 1 < b.k THEN 1 ELSE 0, [st EXCEPT !.mb[a[1] + 1].c = @ + 1], st)
    [] c.op = "iroom" -> LET b == st.ib[a[1] + 1] IN Ok(IF b.c < b.k THEN 1 ELSE 0, st)
    [] c.op = "oroom" -> LET b == st.ob[a[1] + 1] IN Ok(IF b.c < b.k THEN 1 ELSE 0, st)
    [] c.op = "mroom" -> LET b == st.mb[a[1] + 1] IN Ok(IF b.c < b.k THEN 1 ELSE 0, st)
    [] c.op = "iprep" -> LET b == st.ib[a[1] + 1] IN If(b.c = b.k, 0, st, st)
    [] c.op = "oprep" -> LET b == st.ob[a[1] + 1] IN If(b.c = b.k, 0, st, st)
    [] c.op = "mprep" -> LET b == st.mb[a[1] + 1] IN If(b.c = b.k, 0, st, st)
    [] c.op = "prep" -> Ok(0, [st EXCEPT !.stage = "prep"])
    [] c.op = "dummy" -> Ok(0, [st EXCEPT !.stage = "prep"])
    [] c.op = "setin" -> If(Len(a[3]) = Len(InOf(st, a[1] + 1)), 0, [st EXCEPT !.sin[a[1] + 1] = <<a[3]>>], st)
    [] c.op = "online" -> Ok(0, [st EXCEPT !.stage = "done"])
    [] c.op = "result" -> Ok(OutVals(st, a[1] + 1), st)
    [] c.op = "dnew" -> If(a[1] > 2 * a[2], 0, st, st)
    [] c.op = "dn" -> If(st.n > 2 * a[1], 0, [st EXCEPT !.dthr = a[1]], st)
    [] c.op = "dnsetin" -> If(Len(a[3]) = Len(InOf(st, a[1] + 1)), 0, [st EXCEPT !.sin[a[1] + 1] = <<a[3]>>], st)
    [] c.op = "dnrun" -> Ok(0, [st EXCEPT !.stage = "dndone"])
    [] c.op = "dnresult" -> Ok(OutVals(st, a[1] + 1), st)
    [] c.op = "end" -> Ok(0, st)

(* calls whose effect the interface leaves open are not part of the specified histories *)
Legal(st, c) ==
  LET a == c.a IN
  CASE c.op \in {"in"} -> ~st.inC /\ a[1] \in 0..(st.n - 1)
    [] c.op = "out" -> ~st.outC /\ a[1] \in 0..(st.n - 1) /\ a[2] \in 1..Len(st.G)
    [] c.op = "add" -> a[1] \in 1..Len(st.G) /\ a[2] \in 1..Len(st.G)
    [] c.op = "mul" -> ~st.last /\ a[1] \in 1..Len(st.G) /\ a[2] \in 1..Len(st.G)
    [] c.op = "layer" -> ~st.last
    [] c.op = "last" -> ~st.last
    [] c.op = "corr" -> ~st.corr
    [] c.op = "net" -> ~st.net
    [] c.op = "thr" -> st.corr
    [] c.op = "gin" -> st.cin[a[1] + 1][a[2]] = Unset /\ st.G[a[2]].g = "in"
    [] c.op = "setflat" -> Len(a[3]) = NIn(st)
    [] c.op = "mu" -> st.mu[a[1]] = Unset /\ st.G[a[1]].g \in {"in", "mul"} /\ st.stage = ""
    [] c.op = "metrics" -> st.last
    [] c.op = "batches" -> Ready(st) /\ st.corr
    [] c.op = "prep" -> Ready(st) /\ Layered(st.G) /\ st.corr /\ st.thr >= 0 /\ st.stage = ""
    [] c.op = "dummy" -> Ready(st) /\ Layered(st.G) /\ st.stage = ""
    [] c.op = "setin" -> st.stage = "prep"
    [] c.op = "online" -> st.stage = "prep" /\ Secure(st) /\ NoMu(st)
    [] c.op = "result" -> st.stage = "done"
    [] c.op = "dn" -> Ready(st) /\ Layered(st.G) /\ (st.n > 2 * a[1] => st.n = 2 * a[1] + 1)
    [] c.op = "dnsetin" -> st.dthr >= 0
    [] c.op = "dnrun" -> st.dthr >= 0 /\ Secure(st) /\ st.stage = "" /\ NoMu(st)
    [] c.op = "dnresult" -> st.stage = "dndone"
    [] OTHER -> TRUE
=============================================================================
