-------------------------------- MODULE Circ --------------------------------
(***************************************************************************)
(* Circuits: a sequence of gates in the order of their declaration,        *)
(* gate = [g |-> "in"|"add"|"mul"|"out", a, b, lay]:                       *)
(*   in:  a = owner (1-based)        add/mul: a, b = operand gate numbers  *)
(*   out: a = owner, b = exposed gate          mul: lay = layer (1-based)  *)
(* Batching, ordering, metrics and clear evaluation as functions of that.  *)
(***************************************************************************)
EXTENDS Sharing, SequencesExt

Ids(G) == [i \in 1..Len(G) |-> i]
GatesOf(G, kind, own) == SelectSeq(Ids(G), LAMBDA i : G[i].g = kind /\ G[i].a = own)
Kind(G, kind) == SelectSeq(Ids(G), LAMBDA i : G[i].g = kind)
MulsOf(G, l) == SelectSeq(Ids(G), LAMBDA i : G[i].g = "mul" /\ G[i].lay = l)

CeilDiv(a, b) == (a + b - 1) \div b
NChunks(len, k) == IF len = 0 THEN 1 ELSE CeilDiv(len, k)
(* split in order into batches of k, padding (0) only the last; at least one batch *)
Chunks(s, k) ==
  [c \in 1..NChunks(Len(s), k) |->
     [i \in 1..k |-> IF (c - 1) * k + i <= Len(s) THEN s[(c - 1) * k + i] ELSE 0]]

Cat(f, m) == MFlat([i \in 1..m |-> f[i]])

InBatches(G, n, k) ==
  LET F == [p \in 1..n |-> LET c == Chunks(GatesOf(G, "in", p), k)
              IN [i \in 1..Len(c) |-> [kind |-> "in", own |-> p, g |-> c[i]]]]
  IN Cat(F, n)
OutBatches(G, n, k) ==
  LET F == [p \in 1..n |-> LET c == Chunks(GatesOf(G, "out", p), k)
              IN [i \in 1..Len(c) |-> [kind |-> "out", own |-> p, g |-> c[i]]]]
  IN Cat(F, n)
MulBatches(G, L, k) ==
  LET F == [l \in 1..L |-> LET c == Chunks(MulsOf(G, l), k)
              IN [i \in 1..Len(c) |-> [lay |-> l, g |-> c[i]]]]
  IN Cat(F, L)

(* number of gates of the same kind and owner declared up to i *)
IndexOf(G, i) == Cardinality({j \in 1..i : G[j].g = G[i].g /\ G[j].a = G[i].a})

(* clear value of every gate, for inputs[p][j] *)
RECURSIVE ValsFrom(_, _, _, _)
ValsFrom(G, inputs, i, acc) ==
  IF i > Len(G) THEN acc
  ELSE LET g == G[i]
           v == CASE g.g = "in" -> inputs[g.a][IndexOf(G, i)]
                  [] g.g = "add" -> Add(acc[g.a], acc[g.b])
                  [] g.g = "mul" -> Mul(acc[g.a], acc[g.b])
                  [] OTHER -> acc[g.b]
       IN ValsFrom(G, inputs, i + 1, Append(acc, v))
Vals(G, inputs) == ValsFrom(G, inputs, 1, <<>>)

(* masks of every gate from masks m[i] of the inputs and multiplications *)
RECURSIVE MasksFrom(_, _, _, _)
MasksFrom(G, m, i, acc) ==
  IF i > Len(G) THEN acc
  ELSE LET g == G[i]
           v == CASE g.g \in {"in", "mul"} -> m[i]
                  [] g.g = "add" -> Add(acc[g.a], acc[g.b])
                  [] OTHER -> acc[g.b]
       IN MasksFrom(G, m, i + 1, Append(acc, v))
Masks(G, m) == MasksFrom(G, m, 1, <<>>)

WellFormed(G, n, L) ==   \* operands declared before use, multiplications in layers after their operands'
  \A i \in 1..Len(G) :
    CASE G[i].g = "in" -> G[i].a \in 1..n
      [] G[i].g = "out" -> G[i].a \in 1..n /\ G[i].b \in 1..(i - 1)
      [] OTHER -> G[i].a \in 1..(i - 1) /\ G[i].b \in 1..(i - 1)

SumInts(s) == LET RECURSIVE H(_) H(i) == IF i > Len(s) THEN 0 ELSE s[i] + H(i + 1) IN H(1)

(* the synthetic generator: inputs per party, then per layer the pairs (x, y) -> add, x*(x+y), y*(x+y); outputs *)
FromConfig(inp, out, width, depth) ==
  LET n == Len(inp)
      ni == SumInts(inp)
      FI == [p \in 1..n |-> [j \in 1..inp[p] |-> [g |-> "in", a |-> p, b |-> 0, lay |-> 0]]]
      ins == Cat(FI, n)
      per == 3 * (width \div 2)                       \* gates per layer
      MulId(d, j) ==                                  \* j-th (0-based) multiplication of layer d (1-based)
        ni + (d - 1) * per + 3 * (j \div 2) + 2 + (j % 2)
      Src(d, j) == IF d = 1 THEN (j % ni) + 1 ELSE MulId(d - 1, j)
      FL == [d \in 1..depth |->
        LET FP == [q \in 1..(width \div 2) |->          \* pair q
              LET i == q - 1
                  x == Src(d, 2 * i)
                  y == Src(d, (2 * i) + 1)
                  ad == ni + (d - 1) * per + 3 * i + 1
              IN << [g |-> "add", a |-> x, b |-> y, lay |-> 0],
                    [g |-> "mul", a |-> x, b |-> ad, lay |-> d],
                    [g |-> "mul", a |-> y, b |-> ad, lay |-> d] >>]
        IN Cat(FP, width \div 2)]
      before(p) == SumInts(SubSeq(out, 1, p - 1))
      FO == [p \in 1..n |-> [j \in 1..out[p] |->
                  [g |-> "out", a |-> p, b |-> MulId(depth, (before(p) + j - 1) % width), lay |-> 0]]]
  IN ins \o Cat(FL, depth) \o Cat(FO, n)
=============================================================================
