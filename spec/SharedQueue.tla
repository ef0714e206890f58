----------------------------- MODULE SharedQueue -----------------------------
(***************************************************************************)
(* The shared queue as its users see it: every operation takes effect at   *)
(* one moment between its call and its return.  A configuration is the     *)
(* queue and, per thread, what it is doing: <<"idle">>, <<"inv", op, v>>   *)
(* (called, not yet in effect) or <<"lin", op, result>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Removers == {"pop", "popfront"}
Waiters == {"pop", "popfront", "peek", "await"}       \* these wait while the queue is empty
Enabled(q, op) == op \in Waiters => q # <<>>
After(q, op, v) == CASE op \in {"push", "pushc"} -> Append(q, v)
                     [] op \in Removers -> Tail(q)
                     [] OTHER -> q
Result(q, op) == CASE op \in {"pop", "peek"} -> Head(q)
                   [] op = "size" -> Len(q)
                   [] OTHER -> 0
Idle == <<"idle">>
Effect(c, t) == LET p == c.st[t] IN [q |-> After(c.q, p[2], p[3]), st |-> [c.st EXCEPT ![t] = <<"lin", p[2], Result(c.q, p[2])>>]]
CanEffect(c, t) == c.st[t][1] = "inv" /\ Enabled(c.q, c.st[t][2])
(* all configurations reachable by effects alone *)
RECURSIVE Closure(_)
Closure(S) ==
  LET new == UNION {{Effect(c, t) : t \in {u \in DOMAIN c.st : CanEffect(c, u)}} : c \in S} \ S
  IN IF new = {} THEN S ELSE Closure(S \union new)
Invoke(S, t, op, v) == Closure({[c EXCEPT !.st[t] = <<"inv", op, v>>] : c \in {d \in S : d.st[t] = Idle}})
Return(S, t, op, r) == {[c EXCEPT !.st[t] = Idle] : c \in {d \in S : d.st[t] = <<"lin", op, r>>}}
(* a history may end with B blocked only if each of them waits for an element that is not there *)
MayEnd(S, B) == \E c \in S : \A t \in DOMAIN c.st :
                  IF t \in B THEN c.st[t][1] = "inv" /\ ~Enabled(c.q, c.st[t][2]) ELSE c.st[t] = Idle
=============================================================================
