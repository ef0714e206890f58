------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* The two programs: n = 4m + 1 parties, each started with the number of   *)
(* parties, its id, a size (multiplications) and a depth.  What each       *)
(* sends to each over the whole run, in bytes, follows from the protocols: *)
(* the numbers of values in every operation, and the announcement of its   *)
(* id with which a party connects to those before it.                      *)
(***************************************************************************)
EXTENDS DNOps
Thr(n) == (n - 1) \div 2
Pack0(n) == (Thr(n) + 2) \div 2             \* the batch size
Circuit(n, size, depth) ==
  LET io == [p \in 1..n |-> IF p = 1 THEN 2 ELSE 0] IN FromConfig(io, io, size \div depth, depth)
FieldBytes == 8
IdBytes == 4
------------------------------------------------------------------------------
(* TurboPack: values party p sends party q *)
Turbo(n, G, L) ==
  LET t == Thr(n)
      k == Pack0(n)
      mb == MulBatches(G, L, k)
      nmb == Len(mb)
      io == InBatches(G, n, k) \o OutBatches(G, n, k)
      own(q) == Cardinality({i \in 1..Len(io) : io[i].own = q})
      nind == Len(Kind(G, "in")) + Len(Kind(G, "mul"))
      dealt == CeilDiv(nind, t + 1) + k * CeilDiv(3 * nmb, t + 1) + CeilDiv(3 * nmb + Len(io), t + 1) + k * CeilDiv(nmb, t + 1)
      Offline(p, q) == dealt
                       + (IF q = 1 THEN k * nmb ELSE 0) + (IF p = 1 /\ q > t THEN k * nmb ELSE 0)     \* products
                       + (IF q = 1 THEN 2 * nmb ELSE 0) + (IF p = 1 THEN 2 * nmb ELSE 0)              \* operands' masks
                       + own(q)
      Online(p, q) == (IF q = 1 THEN Len(GatesOf(G, "in", p)) + nmb ELSE 0)
                      + (IF p = 1 THEN Len(GatesOf(G, "out", q)) + 2 * nmb ELSE 0)
  IN [p \in 1..n |-> [q \in 1..n |-> Offline(p, q) + Online(p, q)]]
(* the online phase: a constant number of values per multiplication, whatever the number of parties *)
OnlinePerBatch(n) == 3 * n
ASSUME \A n \in {4 * m + 1 : m \in 1..200} : OnlinePerBatch(n) < 12 * Pack0(n)
------------------------------------------------------------------------------
(* DN07 *)
Dn(n, G, L) ==
  LET c == [n |-> n, t |-> Thr(n), L |-> L, G |-> G,
            ins |-> [q \in 1..n |-> GatesOf(G, "in", q)], ous |-> [q \in 1..n |-> GatesOf(G, "out", q)],
            lay |-> [y \in 1..L |-> MulsOf(G, y)], mus |-> Cat([y \in 1..L |-> MulsOf(G, y)], L)]
      S(p, q, op, y) == Flow(c, p, op, y).s[q]
  IN [p \in 1..n |-> [q \in 1..n |->
        S(p, q, "PrepS", 0) + S(p, q, "FDS", 0) + S(p, q, "InS", 0) + S(p, q, "InO", 0) + S(p, q, "OutS", 0)
        + SumInts([y \in 1..L |-> S(p, q, "MS", y) + S(p, q, "MP1S", y)])]]
------------------------------------------------------------------------------
Bytes(prog, n, size, depth) ==
  LET G == Circuit(n, size, depth)
      v == IF prog = "ours" THEN Turbo(n, G, depth) ELSE Dn(n, G, depth)
  IN [p \in 1..n |-> [q \in 1..n |-> IF p = q THEN 0 ELSE FieldBytes * v[p][q] + (IF q < p THEN IdBytes ELSE 0)]]
=============================================================================
