------------------------------ MODULE PRGTrace ------------------------------
(***************************************************************************)
(* The generators of a program.  Each has a seed and the number of blocks  *)
(* it has drawn since its last reset; a request for n bytes takes          *)
(* ceil(n / 16) blocks of the keystream AES_seed(nonce || initial + k).    *)
(***************************************************************************)
EXTENDS Aes, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Aes128(KeySchedule([i \in 1..16 |-> i - 1]), [i \in 1..16 |-> 17 * (i - 1)]) =     \* FIPS 197, appendix C.1
         <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
VARIABLES run, l, gen
vars == <<run, l, gen>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Evs == TraceRuns[run].ev
Ctr0 == TraceRuns[run].ctr      \* initial counter and nonce: 8 bytes each, least significant first
Nonce == TraceRuns[run].nonce
GSlots == 1..4
Fresh(seed) == [ks |-> KeySchedule(seed), n |-> 0]
ZeroSeed == [i \in 1..16 |-> 0]
Init == l = 1 /\ run \in 1..Len(TraceRuns) /\ gen = [s \in GSlots |-> Fresh(ZeroSeed)]
Is(op) == l <= Len(Evs) /\ Evs[l].op = op
E == Evs[l]
Step == l' = l + 1 /\ UNCHANGED run
RECURSIVE AddTo(_, _, _)
AddTo(c, i, k) == IF i > 8 \/ k = 0 THEN c
                  ELSE LET v == c[i] + (k % 256) IN AddTo([c EXCEPT ![i] = v % 256], i + 1, (k \div 256) + (v \div 256))
Ctr(k) == AddTo(Ctr0, 1, k)
Block(g, k) == Aes128(g.ks, Ctr(k) \o Nonce)
BlocksFor(n) == (n + 15) \div 16
Stream(g, n) ==
  \* the first n bytes of the blocks from the current one on
  LET bs == [k \in 1..BlocksFor(n) |-> Block(g, g.n + k - 1)]
      bd == MDeep(bs)
  IN [i \in 1..n |-> bd[((i - 1) \div 16) + 1][((i - 1) % 16) + 1]]
New == Is("new") /\ gen' = [gen EXCEPT ![E.s] = Fresh(E.seed)] /\ Step
NewDefault == Is("def") /\ gen' = [gen EXCEPT ![E.s] = Fresh(ZeroSeed)] /\ Step
Copy == Is("copy") /\ gen' = [gen EXCEPT ![E.s] = gen[E.f]] /\ Step
Draw ==        \* kind: into a pointer, a whole vector, part of a vector (refused if it is too small), a new vector
  /\ Is("next")
  /\ IF E.kind = "part" /\ E.size < E.n
     THEN E.ok = 0 /\ UNCHANGED gen
     ELSE /\ (E.ok = 1 /\ E.over = 0 /\ E.r = Stream(gen[E.s], E.n)) = TRUE
          /\ gen' = [gen EXCEPT ![E.s].n = @ + BlocksFor(E.n)]
  /\ Step
Reset == Is("reset") /\ gen' = [gen EXCEPT ![E.s].n = 0] /\ Step
Counter == Is("ctr") /\ (E.r = Ctr(gen[E.s].n)) = TRUE /\ UNCHANGED gen /\ Step
Seed == Is("seed") /\ (E.r = gen[E.s].ks[1]) = TRUE /\ UNCHANGED gen /\ Step
Done == l = Len(Evs) /\ Is("end") /\ UNCHANGED vars
Next == New \/ NewDefault \/ Copy \/ Draw \/ Reset \/ Counter \/ Seed \/ Done
=============================================================================
