-------------------------- MODULE SharedQueueDesign --------------------------
(***************************************************************************)
(* The algorithm: one mutex, one condition variable.                       *)
(*   push:  lock; append; unlock; notify                                   *)
(*   pop:   lock; while empty: wait (release, sleep, reacquire); take; unlock *)
(* checked against SharedQueue: the configuration `abs` follows the        *)
(* algorithm, each operation taking effect inside its critical section.    *)
(* All programs of NT threads with at most NOPS operations altogether.     *)
(***************************************************************************)
EXTENDS SharedQueue
CONSTANTS NT, NOPS, Kinds, NOTIFY, SPURIOUS
Threads == 1..NT
VARIABLES prog, pc, owner, deck, asleep, ret, abs, spur
vars == <<prog, pc, owner, deck, asleep, ret, abs, spur>>
RECURSIVE SumLen(_, _)
SumLen(p, t) == IF t = 0 THEN 0 ELSE Len(p[t]) + SumLen(p, t - 1)
Progs == UNION {[1..k -> Kinds] : k \in 1..(NOPS - NT + 1)}
Init ==
  /\ prog \in {p \in [Threads -> Progs] : SumLen(p, NT) <= NOPS}
  /\ pc = [t \in Threads |-> "idle"] /\ owner = 0 /\ deck = <<>> /\ asleep = {} /\ ret = [t \in Threads |-> 0]
  /\ abs = [q |-> <<>>, st |-> [t \in Threads |-> Idle]] /\ spur = 0
Op(t) == Head(prog[t])
Val(t) == 10 * t + Len(prog[t])
Keep == UNCHANGED <<prog, spur>>
Invoke1(t) ==
  /\ pc[t] = "idle" /\ prog[t] # <<>>
  /\ pc' = [pc EXCEPT ![t] = "lock"]
  /\ abs' = [abs EXCEPT !.st[t] = <<"inv", Op(t), Val(t)>>]
  /\ UNCHANGED <<owner, deck, asleep, ret>> /\ Keep
Lock(t) ==
  /\ pc[t] \in {"lock", "relock"} /\ owner = 0
  /\ owner' = t
  /\ pc' = [pc EXCEPT ![t] = "crit"]
  /\ UNCHANGED <<deck, asleep, ret, abs>> /\ Keep
Wait(t) ==
  /\ pc[t] = "crit" /\ ~Enabled(deck, Op(t))
  /\ owner' = 0 /\ asleep' = asleep \union {t}
  /\ pc' = [pc EXCEPT ![t] = "asleep"]
  /\ UNCHANGED <<deck, ret, abs>> /\ Keep
Wake(t) ==        \* woken by a notification
  /\ pc[t] = "asleep" /\ t \notin asleep
  /\ pc' = [pc EXCEPT ![t] = "relock"]
  /\ UNCHANGED <<owner, deck, asleep, ret, abs>> /\ Keep
Spurious(t) ==
  /\ t \in asleep /\ spur < SPURIOUS
  /\ asleep' = asleep \ {t} /\ spur' = spur + 1
  /\ UNCHANGED <<pc, owner, deck, ret, abs, prog>>
Effective(t) ==
  /\ pc[t] = "crit" /\ Enabled(deck, Op(t))
  /\ deck' = After(deck, Op(t), Val(t))
  /\ ret' = [ret EXCEPT ![t] = Result(deck, Op(t))]
  /\ abs' = Effect(abs, t)
  /\ pc' = [pc EXCEPT ![t] = "unlock"]
  /\ UNCHANGED <<owner, asleep>> /\ Keep
Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ owner' = 0
  /\ pc' = [pc EXCEPT ![t] = IF Op(t) \in {"push", "pushc"} THEN "notify" ELSE "return"]
  /\ UNCHANGED <<deck, asleep, ret, abs>> /\ Keep
Notify(t) ==
  /\ pc[t] = "notify"
  /\ IF NOTIFY = "all" \/ asleep = {} THEN asleep' = {} ELSE \E u \in asleep : asleep' = asleep \ {u}
  /\ pc' = [pc EXCEPT ![t] = "return"]
  /\ UNCHANGED <<owner, deck, ret, abs>> /\ Keep
Return1(t) ==
  /\ pc[t] = "return"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ prog' = [prog EXCEPT ![t] = Tail(@)]
  /\ abs' = [abs EXCEPT !.st[t] = Idle]
  /\ UNCHANGED <<owner, deck, asleep, ret, spur>>
Step(t) == Invoke1(t) \/ Lock(t) \/ Wait(t) \/ Wake(t) \/ Spurious(t) \/ Effective(t) \/ Unlock(t) \/ Notify(t) \/ Return1(t)
Stuck == \A t \in Threads : (pc[t] = "idle" /\ prog[t] = <<>>) \/ t \in asleep
Next == (\E t \in Threads : Step(t)) \/ (Stuck /\ UNCHANGED vars)

Exclusive == Cardinality({t \in Threads : pc[t] \in {"crit", "unlock"}}) <= 1
Linearizable ==
  /\ abs.q = deck
  /\ \A t \in Threads : pc[t] \in {"unlock", "notify", "return"} => abs.st[t] = <<"lin", Op(t), ret[t]>>
NoLostWakeup == Stuck => MayEnd({abs}, {t \in Threads : pc[t] = "asleep"})
=============================================================================
