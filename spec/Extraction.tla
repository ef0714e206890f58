----------------------------- MODULE Extraction -----------------------------
(***************************************************************************)
(* Correlated randomness is extracted linearly from the sharings that all  *)
(* parties deal.  A recorded matrix has one row for every (dealer, dealt   *)
(* sharing), measured by letting only that sharing be non-zero, and one    *)
(* column for every correlation derived from that kind of dealing.         *)
(*                                                                         *)
(* Whatever t dealers contribute, the correlations are uniform and         *)
(* independent over the randomness of the other n - t dealers exactly when *)
(* the rows of every n - t dealers have full column rank.                  *)
(***************************************************************************)
EXTENDS Sharing, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
RowsOf(r, H) == LET is == SelectSeq([i \in 1..Len(r.dealer) |-> i], LAMBDA i : r.dealer[i] \in H)
                IN [x \in 1..Len(is) |-> r.m[is[x]]]
Hiding(r) == \A H \in kSubset(r.n - r.t, 1..r.n) : MRank(E, RowsOf(r, H)) = r.cols
Init == run \in 1..Len(TraceRuns) /\ l = 1
Check == l = 1 /\ R.ok /\ Hiding(R) = TRUE /\ l' = 2 /\ UNCHANGED run
Done == l = 2 /\ UNCHANGED <<run, l>>
Next == Check \/ Done
=============================================================================
