------------------------------ MODULE PRGDesign ------------------------------
(***************************************************************************)
(* The counter discipline of the generator over an uninterpreted keystream *)
(* (a block is the pair (seed, index)): no block leaves it twice between   *)
(* resets, the blocks of a request follow those of the one before, and     *)
(* generators with the same seed and history agree, whatever sizes are     *)
(* asked for.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BS, MAXREQ, MAXCTR          \* block size in bytes, largest request
VARIABLES ctr, hist, out              \* two generators with one seed
vars == <<ctr, hist, out>>
G == {1, 2}
Blocks(n) == (n + BS - 1) \div BS
Init == ctr = [g \in G |-> 0] /\ hist = [g \in G |-> <<>>] /\ out = [g \in G |-> <<>>]
Draw(g, n) ==
  /\ ctr[g] + Blocks(n) <= MAXCTR
  /\ out' = [out EXCEPT ![g] = @ \o [i \in 1..n |-> <<ctr[g] + ((i - 1) \div BS), (i - 1) % BS>>]]
  /\ ctr' = [ctr EXCEPT ![g] = @ + Blocks(n)]
  /\ hist' = [hist EXCEPT ![g] = Append(@, n)]
Reset(g) == ctr[g] > 0 /\ ctr' = [ctr EXCEPT ![g] = 0] /\ hist' = [hist EXCEPT ![g] = <<>>] /\ out' = [out EXCEPT ![g] = <<>>]
Next == \E g \in G : Reset(g) \/ \E n \in 1..MAXREQ : Draw(g, n)
NoRepeat == \A g \in G : \A i, j \in 1..Len(out[g]) : i # j => out[g][i] # out[g][j]
Deterministic == hist[1] = hist[2] => out[1] = out[2] /\ ctr[1] = ctr[2]
RECURSIVE SumB(_)
SumB(h) == IF h = <<>> THEN 0 ELSE Blocks(Head(h)) + SumB(Tail(h))
CountsBlocks == \A g \in G : ctr[g] = SumB(hist[g])
Ascending == \A g \in G : \A i \in 1..(Len(out[g]) - 1) : out[g][i][1] <= out[g][i + 1][1]
=============================================================================
