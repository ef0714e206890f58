------------------------------ MODULE TPTrace ------------------------------
(***************************************************************************)
(* Acceptance of recorded TurboPack executions.  One behaviour per run:    *)
(* events are consumed in order, channels and what each party knows are    *)
(* the state; an event the protocol does not allow has no transition, so   *)
(* TLC reports a deadlock, which is a rejection of that run.               *)
(* Conditions carry the property that demands them; a check activates its  *)
(* own property's conditions (PROPS).                                      *)
(***************************************************************************)
EXTENDS TPOps, Json, IOUtils, TLC

TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
PROPS == { p \in {"T01","T02","T03","T04","T05","T06","T07","T08","T09","T10","C04"} : p \in ToSet(SplitProps) }

VARIABLES run, l, ctx, chan, log, snap, lam, outs, cost
vars == <<run, l, ctx, chan, log, snap, lam, outs, cost>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]

R == TraceRuns[run]
Ev == R.ev[l]
On(P) == P \in PROPS
Req(P, c) == (On(P) => c) = TRUE

InitRun(r) ==
  LET T == TraceRuns[r]
      n == T.n
      c == MDeep(MkCtx(T))
  IN /\ run = r
     /\ l = 1
     /\ ctx = c
     /\ chan = [p \in 1..n |-> [q \in 1..n |-> <<>>]]
     /\ log = [p \in 1..n |-> <<>>]
     /\ snap = [p \in 1..n |-> <<>>]
     /\ lam = MDeep(IF T.mode = "dummy" THEN DummyMasks(c, T) ELSE <<>>)
     /\ outs = {}
     /\ cost = [x \in {"fi", "fd", "online"} |-> 0]
Init == \E r \in 1..Len(TraceRuns) : InitRun(r)

LogAdd(lg, key, s, r) ==   \* append what one slice of an operation sent and received
  IF key \in DOMAIN lg
  THEN [lg EXCEPT ![key] = [s |-> [q \in 1..ctx.n |-> @.s[q] \o s[q]], r |-> [q \in 1..ctx.n |-> @.r[q] \o r[q]]]]
  ELSE (key :> [s |-> s, r |-> r]) @@ lg

(* what later conditions refer to *)
Kept(op) == op \in {"MultPrepR", "PR"} \/ ((On("T07") \/ On("T09")) /\ op = "ProdP1") \/ (On("T08") /\ op \in {"IndS", "UnpS", "ZeroS", "ZProdS"})

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AllVals(s) == \A q \in 1..Len(s) : AllCanon(s[q])

Slice ==
  /\ Ev.e = "slice"
  /\ LET p == Ev.p
         key == <<Ev.op, Ev.lay>>
         lg == MDeep([log EXCEPT ![p] = LogAdd(@, key, Ev.s, Ev.r)])
         \* a slice may read what it has itself just sent, so sends enter the channels first
         c1 == MDeep([chan EXCEPT ![p] = [q \in 1..ctx.n |-> @[q] \o Ev.s[q]]])
     IN /\ p \in 1..ctx.n
        /\ AllVals(Ev.s) /\ AllVals(Ev.r)
        /\ \A q \in 1..ctx.n : IsPrefixOf(Ev.r[q], c1[q][p])
        /\ chan' = MDeep([q \in 1..ctx.n |-> [d \in 1..ctx.n |->
                      IF d = p THEN SubSeq(c1[q][d], Len(Ev.r[q]) + 1, Len(c1[q][d])) ELSE c1[q][d]]])
        /\ log' = IF Ev.done /\ ~Kept(Ev.op) THEN MDeep([lg EXCEPT ![p] = [x \in DOMAIN @ \ {key} |-> @[x]]]) ELSE lg
        /\ (Ev.done => OpOk(On, ctx, lg, snap, lam, p, Ev.op, Ev.lay)) = TRUE   \* (= TRUE: a plain condition, no branching)
        /\ cost' = (IF On("T10") THEN MDeep([cost EXCEPT ![Phase(Ev.op)] = @ + SumInts([q \in 1..ctx.n |-> Len(Ev.s[q])])]) ELSE cost)
  /\ UNCHANGED <<snap, lam, outs>>

Corr ==
  /\ Ev.e = "corr"
  /\ snap' = [snap EXCEPT ![Ev.p] = <<Ev>>]
  /\ SnapShape(ctx, Ev) = TRUE
  /\ IF \A p \in 1..ctx.n : Len(snap'[p]) # 0
     THEN LET full == [p \in 1..ctx.n |-> snap'[p][1]]
          IN /\ SnapOk(On, ctx, full) = TRUE
             /\ (((On("T07") \/ On("T09")) /\ ctx.n > 1 /\ <<"ProdP1", 0>> \in DOMAIN log[1])
                   => MasksOk(ctx, full, log[1][<<"ProdP1", 0>>])) = TRUE
             /\ lam' = MDeep(SnapMasks(ctx, full))
     ELSE UNCHANGED lam
  /\ UNCHANGED <<chan, log, outs, cost>>

Lam ==
  /\ Ev.e = "lam"
  /\ Req("T06", /\ Len(lam) = Len(ctx.G)
                /\ { Ev.v[i][1] : i \in 1..Len(Ev.v) } = Owned(ctx, Ev.p)
                /\ \A i \in 1..Len(Ev.v) : Ev.v[i][2] = lam[Ev.v[i][1]])
  /\ UNCHANGED <<chan, log, snap, lam, outs, cost>>

Mu ==
  /\ Ev.e = "mu"
  /\ Req("T03", /\ Len(lam) = Len(ctx.G)
                /\ Len(Ev.v) = Len(ctx.G)
                /\ \A i \in 1..Len(Ev.v) : /\ Ev.v[i][1] = i
                                           /\ Add(Ev.v[i][2], lam[i]) = ctx.val[i])
  /\ UNCHANGED <<chan, log, snap, lam, outs, cost>>

Out ==
  /\ Ev.e = "out"
  /\ Ev.p \notin outs
  /\ (On("T01") \/ On("T04") \/ On("T02")) => Ev.v = OutVals(ctx, Ev.p)
  /\ outs' = outs \cup {Ev.p}
  /\ UNCHANGED <<chan, log, snap, lam, cost>>

(* everything sent by p to q over the whole run *)
End ==
  /\ Ev.e = "end"
  /\ outs = 1..ctx.n
  /\ Req("T02", /\ Ev.left = 0
                /\ \A p \in 1..ctx.n, q \in 1..ctx.n : chan[p][q] = <<>>)
  /\ Req("T10", cost = Cost(ctx))
  /\ Req("T02", "ref" \in DOMAIN R => R.tot = R.ref)
  /\ UNCHANGED <<chan, log, snap, lam, outs, cost>>

Step == /\ l <= Len(R.ev)
        /\ l' = l + 1
        /\ UNCHANGED <<run, ctx>>
        /\ Slice \/ Corr \/ Lam \/ Mu \/ Out \/ End
Done == /\ l = Len(R.ev) + 1
        /\ R.ev[Len(R.ev)].e = "end"
        /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
