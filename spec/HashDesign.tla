----------------------------- MODULE HashDesign -----------------------------
(***************************************************************************)
(* Why cutting the input does not matter: the buffering of the code (a     *)
(* partial word, full words, a permutation whenever the rate is full) over *)
(* an uninterpreted permutation.  Bytes are labels; a word of the sponge   *)
(* is the set of (position, label) XORed into it; `blocks` are the blocks  *)
(* given to the permutation.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, RATE, MAXLEN, MAXUPD     \* bytes per word, words per block
VARIABLES msg, blocks, cur, saved, bi, wi, done
vars == <<msg, blocks, cur, saved, bi, wi, done>>
Empty == [i \in 0..(RATE - 1) |-> {}]
SymDiff(a, b) == (a \ b) \union (b \ a)
Init == msg = 0 /\ blocks = <<>> /\ cur = Empty /\ saved = {} /\ bi = 0 /\ wi = 0 /\ done = FALSE
(* state of the machine as a record, so that an update is a function *)
S0 == [blocks |-> blocks, cur |-> cur, saved |-> saved, bi |-> bi, wi |-> wi]
PutWord(s, w) ==
  LET c == [s.cur EXCEPT ![s.wi] = SymDiff(@, w)]
  IN IF s.wi + 1 = RATE THEN [s EXCEPT !.blocks = Append(@, c), !.cur = Empty, !.wi = 0]
     ELSE [s EXCEPT !.cur = c, !.wi = @ + 1]
SaveN(s, p, n) ==         \* OR the bytes p+1..p+n into the partial word
  [s EXCEPT !.saved = @ \union {<<s.bi + i - 1, p + i>> : i \in 1..n}, !.bi = @ + n]
RECURSIVE Words(_, _, _)
Words(s, p, n) == IF n < W THEN SaveN(s, p, n)
                  ELSE Words(PutWord(s, {<<i - 1, p + i>> : i \in 1..W}), p + W, n - W)
Upd(s, p, n) ==
  LET old == (W - s.bi) % W
  IN IF n < old THEN SaveN(s, p, n)
     ELSE IF old > 0
          THEN LET f == SaveN(s, p, old)
               IN Words([PutWord(f, f.saved) EXCEPT !.bi = 0, !.saved = {}], p + old, n - old)
          ELSE Words(s, p, n)
Update(n) ==
  /\ ~done /\ msg + n <= MAXLEN
  /\ \E s \in {Upd(S0, msg, n)} :
       /\ blocks' = s.blocks /\ cur' = s.cur /\ saved' = s.saved /\ bi' = s.bi /\ wi' = s.wi
  /\ msg' = msg + n /\ UNCHANGED done
DOM == 0
TOP == -1
Finalize ==
  /\ ~done /\ done' = TRUE
  /\ LET c == [cur EXCEPT ![wi] = SymDiff(@, SymDiff(saved, {<<bi, DOM>>}))]
         d == [c EXCEPT ![RATE - 1] = SymDiff(@, {<<W - 1, TOP>>})]
     IN blocks' = Append(blocks, d) /\ cur' = Empty /\ saved' = {} /\ bi' = 0 /\ wi' = 0
  /\ UNCHANGED msg
Next == Finalize \/ (\E n \in 0..MAXUPD : Update(n)) \/ (done /\ UNCHANGED vars)

(* the standard: message, domain byte after the last one, last bit at the end of the last block *)
Bytes(n) == [i \in 0..(n - 1) |-> i + 1]
SpecBlocks(n, full) ==
  LET nb == n \div (W * RATE)
      Byte(i) == (IF i < n THEN {i + 1} ELSE IF i = n /\ full THEN {DOM} ELSE {})
                 \union (IF full /\ i = (nb + 1) * W * RATE - 1 THEN {TOP} ELSE {})
      Block(k) == [w \in 0..(RATE - 1) |-> UNION {{<<j, x>> : x \in Byte((k * RATE + w) * W + j)} : j \in 0..(W - 1)}]
  IN [k \in 1..(IF full THEN nb + 1 ELSE nb) |-> Block(k - 1)]
Buffered ==      \* what is in the partial block and word is the rest of the message
  ~done => /\ blocks = SpecBlocks(msg, FALSE)
           /\ wi * W + bi = msg % (W * RATE)
           /\ bi < W /\ wi < RATE
Padded == done => blocks = SpecBlocks(msg, TRUE)
=============================================================================
