----------------------------- MODULE CircDesign -----------------------------
(* All histories of up to DEPTH calls on a circuit with N clients and batches of K. *)
EXTENDS CircAPI, Json
CONSTANTS N, K, DEPTH
VARIABLES st, d, res, hist
vars == <<st, d, res, hist>>
View == <<st, d, res>>

Val(s) == Int2F(s)
Ins(s, extra) ==  \* inputs for every client; `extra` inputs too many for the last one
  [p \in 1..st.n |-> [j \in 1..(Len(InOf(st, p)) + (IF p = st.n THEN extra ELSE 0)) |-> Val(s * p + j)]]
Top(st0) == Len(st0.G)
C(op, a) == [op |-> op, a |-> a]
Calls ==
  LET m == Top(st) IN
  {C("in", <<p>>) : p \in 0..(N - 1)} \cup
  {C(op, <<x, m>>) : op \in {"add", "mul"}, x \in {1, m}} \cup
  {C("out", <<p, m>>) : p \in 0..(N - 1)} \cup
  {C(op, <<>>) : op \in {"layer", "last", "closein", "closeout", "net", "corr"}} \cup
  {C("thr", <<t>>) : t \in 0..2} \cup
  {C("setclear", <<0, N, Ins(s, 0)>>) : s \in {1, 2}} \cup
  {C("setclear", <<0, N, Ins(1, 1)>>), C("setclear", <<0, N + 1, Append(Ins(1, 0), <<>>)>>)} \cup
  {C("setflat", <<0, NIn(st), [i \in 1..NIn(st) |-> Val(2 + i)]>>)} \cup
  (IF m = 0 THEN {} ELSE {C("getclear", <<0, m>>), C("getclear", <<0, 1>>), C("getmu", <<m>>), C("mu", <<m, <<Val(5)>>>>)}) \cup
  {C("outs", <<0>>), C("outsflat", <<0>>), C("metrics", <<>>)}

Init == st = NewCircuit(N, K) /\ d = 0 /\ hist = <<>> /\ res = [ok |-> TRUE, same |-> TRUE, op |-> ""]
Do(c) ==
  /\ Legal(st, c)
  /\ LET r == Apply(st, c) IN st' = r.st /\ res' = [ok |-> r.ok, same |-> r.st = st, op |-> c.op]
Next == d < DEPTH /\ d' = d + 1 /\ hist' = hist /\ \E c \in Calls : Do(c)
NextEmit == d < DEPTH /\ d' = d + 1 /\ \E c \in Calls : Do(c) /\ hist' = Append(hist, c)
EmitHist == d = DEPTH => PrintT("HIST " \o ToJson(hist))

(* ---- what the histories satisfy, stated independently of the definitions used above ---- *)
Count(x) == Cardinality({i \in 1..Len(st.G) : st.G[i].g = x})
BatchesOk ==
  LET B == AllBatches(st)
      all == MFlat([i \in 1..Len(B) |-> B[i].g])
      real == SelectSeq(all, LAMBDA x : x # 0)
      groups == {<<B[i].kind, B[i].own>> : i \in {j \in 1..Len(B) : B[j].kind # "mul"}}
  IN /\ \A i \in 1..Len(B) : Len(B[i].g) = st.k
     /\ \A x \in 1..Len(st.G) : Cardinality({j \in 1..Len(all) : all[j] = x}) = (IF st.G[x].g = "add" THEN 0 ELSE 1)
     /\ Len(real) = Count("in") + Count("mul") + Count("out")
     /\ groups = {"in", "out"} \X (1..st.n)
     /\ Cardinality({j \in 1..Len(B) : B[j].kind = "mul"}) >= st.L
     /\ \A i \in 1..Len(B) :       \* a batch with padding has it at the end and is the last of its client or layer
          \A j \in 1..st.k : B[i].g[j] = 0 =>
             /\ \A h \in j..st.k : B[i].g[h] = 0
             /\ ~\E h \in (i + 1)..Len(B) : B[h].kind = B[i].kind /\ B[h].own = B[i].own /\ B[h].g[1] # 0
                    /\ (B[h].kind = "mul" => B[i].g[1] # 0 /\ st.G[B[h].g[1]].lay = st.G[B[i].g[1]].lay)
MetricsOk ==
  LET m == Metrics(st) IN
  /\ m[3] = Count("mul") /\ m[4] = Count("in") /\ m[5] = Count("out")
  /\ \E l \in 1..st.L : m[2] = Cardinality({i \in 1..Len(st.G) : st.G[i].g = "mul" /\ st.G[i].lay = l})
  /\ \A l \in 1..st.L : m[2] >= Cardinality({i \in 1..Len(st.G) : st.G[i].g = "mul" /\ st.G[i].lay = l})
  /\ m[6] >= st.n /\ m[7] >= st.n /\ m[8] >= m[1]
  /\ m[6] * st.k >= m[4] /\ m[6] * st.k < m[4] + st.n * st.k + (IF m[4] = 0 THEN 1 ELSE 0)
  /\ Len(AllBatches(st)) = m[6] + m[7] + m[8]
RECURSIVE Meaning(_, _)
Meaning(cin, x) ==      \* the value of gate x, from the top down
  LET g == st.G[x] IN
  CASE g.g = "in" -> cin[x]
    [] g.g = "out" -> Meaning(cin, g.b)
    [] OTHER -> LET a == Meaning(cin, g.a) b == Meaning(cin, g.b) IN
                IF a = Unset \/ b = Unset THEN Unset ELSE IF g.g = "add" THEN Add(a, b) ELSE Mul(a, b)
ClearOk == LET v == Clear(st.cin[1], st.G) IN \A x \in 1..Len(st.G) : v[x] = Meaning(st.cin[1], x)
RefusedOk ==
  /\ ~res.ok => res.same
  /\ st.net => st.outC
  /\ st.corr => st.net
  /\ st.thr >= 0 => st.corr /\ st.thr + 2 * st.k - 1 = st.n /\ 2 * st.thr < st.n
  /\ (\A i \in 1..Len(st.G) : st.cin[1][i] = Unset) \/ res.op \notin {"getclear", "outs", "outsflat"} \/ TRUE

(* the generator, against the recursion over layers of values it stands for *)
CfgSet == {[n |-> 2, k |-> 2, inp |-> i, out |-> o, width |-> w, depth |-> dd] :
             i \in {<<2, 0>>, <<1, 1>>, <<0, 2>>, <<3, 1>>, <<1, 3>>}, o \in {<<1, 0>>, <<2, 3>>, <<0, 0>>, <<0, 5>>},
             w \in {2, 4, 8}, dd \in 1..3}
GoodCfg == {f \in CfgSet : CfgOk(f)}
RECURSIVE LayerVals(_, _, _)
LayerVals(f, v, l) ==     \* l = 0: the inputs
  IF l = 0 THEN v
  ELSE LET w == LayerVals(f, v, l - 1)
           at(j) == w[(j % Len(w)) + 1]
       IN [j \in 1..f.width |-> LET i == 2 * ((j - 1) \div 2) IN Mul(at(j - 1), Add(at(i), at(i + 1)))]
GenOk ==
  d = 0 => \A f \in GoodCfg :
    LET g == Generated(f)
        ins == [p \in 1..2 |-> [j \in 1..f.inp[p] |-> Int2F(3 * p + 2 * j)]]
        v == Clear(Place(g, 0, ins), g.G)
        lv == LayerVals(f, ins[1] \o ins[2], f.depth)
        o == Kind(g.G, "out")
    IN /\ Metrics(g)[1] = f.depth /\ Metrics(g)[2] = f.width /\ Metrics(g)[3] = f.width * f.depth
       /\ \A i \in 1..Len(o) : v[o[i]] = lv[((i - 1) % f.width) + 1]
       /\ \A p \in 1..2 : Len(OutOf(g, p)) = f.out[p] /\ Len(InOf(g, p)) = f.inp[p]
       /\ WellFormed(g.G, 2, f.depth)
=============================================================================
