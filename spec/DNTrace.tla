------------------------------ MODULE DNTrace ------------------------------
(* Acceptance of recorded DN07 executions (see TPTrace). *)
EXTENDS DNOps, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""

VARIABLES run, l, ctx, chan, log, sh, outs
vars == <<run, l, ctx, chan, log, sh, outs>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Ev == R.ev[l]
Req(P, c) == (PROP = P => c) = TRUE

InitRun(r) ==
  LET T == TraceRuns[r]
      n == T.n
  IN /\ run = r /\ l = 1
     /\ ctx = MDeep(DNCtx(T))
     /\ chan = [p \in 1..n |-> [q \in 1..n |-> <<>>]]
     /\ log = [p \in 1..n |-> <<>>]
     /\ sh = [p \in 1..n |-> <<>>]
     /\ outs = {}
Init == \E r \in 1..Len(TraceRuns) : InitRun(r)

LogAdd(lg, key, s, r) ==
  IF key \in DOMAIN lg
  THEN [lg EXCEPT ![key] = [s |-> [q \in 1..ctx.n |-> @.s[q] \o s[q]], r |-> [q \in 1..ctx.n |-> @.r[q] \o r[q]]]]
  ELSE (key :> [s |-> s, r |-> r]) @@ lg
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AllVals(s) == \A q \in 1..Len(s) : AllCanon(s[q])
Kept(op) == PROP \in {"D02", "D03"} /\ op \notin {"PrepS", "PrepR", "OutS", "OutR"}

OpOk(lg, p, op, y) ==
  LET r == lg[p][<<op, y>>]
      f == Flow(ctx, p, op, y)
  IN /\ Lens(r.s) = f.s /\ Lens(r.r) = f.r
     /\ (PROP = "D02" /\ op = "PrepS" /\ ctx.n > 1) => DNDealOk(ctx, r)
     /\ (PROP = "D03" /\ op = "InO") => InOwnerOk(ctx, p, r)

Slice ==
  /\ Ev.e = "slice"
  /\ LET p == Ev.p
         key == <<Ev.op, Ev.lay>>
         lg == MDeep([log EXCEPT ![p] = LogAdd(@, key, Ev.s, Ev.r)])
         c1 == MDeep([chan EXCEPT ![p] = [q \in 1..ctx.n |-> @[q] \o Ev.s[q]]])
     IN /\ p \in 1..ctx.n
        /\ (AllVals(Ev.s) /\ AllVals(Ev.r)) = TRUE
        /\ \A q \in 1..ctx.n : IsPrefixOf(Ev.r[q], c1[q][p])
        /\ chan' = MDeep([q \in 1..ctx.n |-> [d \in 1..ctx.n |->
                      IF d = p THEN SubSeq(c1[q][d], Len(Ev.r[q]) + 1, Len(c1[q][d])) ELSE c1[q][d]]])
        /\ log' = IF Ev.done /\ ~Kept(Ev.op) THEN MDeep([lg EXCEPT ![p] = [x \in DOMAIN @ \ {key} |-> @[x]]]) ELSE lg
        /\ (Ev.done => OpOk(lg, p, Ev.op, Ev.lay)) = TRUE
  /\ UNCHANGED <<sh, outs>>

Shares ==
  /\ Ev.e = "shares"
  /\ sh' = [sh EXCEPT ![Ev.p] = Ev.v]
  /\ Len(Ev.v) = Len(ctx.G)
  /\ ((\A p \in 1..ctx.n : Len(sh'[p]) = Len(ctx.G)) =>
        /\ PROP = "D03" => WiresOk(ctx, sh') /\ MultsOk(ctx, log, sh')
        /\ PROP = "D02" => PrepOk(ctx, log, sh')) = TRUE
  /\ UNCHANGED <<chan, log, outs>>

Out ==
  /\ Ev.e = "out"
  /\ Ev.p \notin outs
  /\ Req("D01", Ev.v = DNOut(ctx, Ev.p))
  /\ outs' = outs \cup {Ev.p}
  /\ UNCHANGED <<chan, log, sh>>

End ==
  /\ Ev.e = "end"
  /\ outs = 1..ctx.n
  /\ Req("D01", Ev.left = 0 /\ \A p \in 1..ctx.n, q \in 1..ctx.n : chan[p][q] = <<>>)
  /\ UNCHANGED <<chan, log, sh, outs>>

Step == /\ l <= Len(R.ev)
        /\ l' = l + 1
        /\ UNCHANGED <<run, ctx>>
        /\ Slice \/ Shares \/ Out \/ End
Done == /\ l = Len(R.ev) + 1 /\ R.ev[Len(R.ev)].e = "end" /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
