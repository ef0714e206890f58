------------------------------ MODULE SSTrace ------------------------------
(* Acceptance of recorded secret-sharing calls. *)
EXTENDS SS, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
vars == <<run, l>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
Evs == TraceRuns[run].ev
R == TraceRuns[run].ring
Init == l = 1 /\ run \in 1..Len(TraceRuns)

(* the first t values of a sharing determine, with the secret, all of it: they are its free part *)
ShareOk(e) ==
  IF e.t = 0 THEN e.ok = 0
  ELSE /\ e.ok = 1
       /\ Len(e.r) = e.count
       /\ \A i \in 1..e.count :
            /\ Len(e.r[i]) = e.n
            /\ RDegLe(R, <<RZero(R)>> \o Canon(R, e.n), <<e.s>> \o e.r[i], e.t)
       /\ Fresh(R, [i \in 1..e.count |-> SubSeq(e.r[i], 1, IF e.t < e.n THEN e.t ELSE e.n)], IF e.t < e.n THEN e.t ELSE e.n)
       /\ e.n > e.t => Fresh(R, [i \in 1..e.count |-> SubSeq(e.r[i], e.n - e.t + 1, e.n)], e.t)
SharePolyOk(e) ==
  IF e.t = 0 THEN e.ok = 0
  ELSE /\ e.ok = 1
       /\ \A i \in 1..e.count : LET p == e.r[i][1] IN
            /\ Len(p) <= e.t + 1 /\ p = PTrim(R, p) /\ p[1] = e.s
            /\ e.r[i][2] = [j \in 1..Len(e.xs) |-> PEval(R, p, e.xs[j])]
       /\ Fresh(R, [i \in 1..e.count |-> [j \in 1..e.t |-> PCoef(R, e.r[i][1], j + 1)]], e.t)
PassiveOk(e) ==    \* the shares given are consistent, or exactly t + 1
  LET xs == IF e.canon = 1 THEN Canon(R, Len(e.sh)) ELSE e.xs
      pos == IF e.canon = 1 THEN RZero(R) ELSE e.pos
  IN IF Len(e.sh) < e.t + 1 \/ Len(xs) < e.t + 1 THEN e.ok = 0
     ELSE /\ Assert(Len(e.sh) = e.t + 1 \/ RDegLe(R, SubSeq(xs, 1, Len(e.sh)), e.sh, e.t), "CALL OUTSIDE THE SPECIFIED INTERFACE")
          /\ e.ok = 1
          /\ e.r = RInterp(R, SubSeq(xs, 1, e.t + 1), SubSeq(e.sh, 1, e.t + 1), pos)
ActiveOk(e) ==
  LET xs == IF e.canon = 1 THEN Canon(R, Len(e.sh)) ELSE e.xs
      pos == IF e.canon = 1 THEN RZero(R) ELSE e.pos
  IN IF Len(e.sh) < 2 * e.t + 1 \/ Len(xs) < 2 * e.t + 1 THEN e.ok = 0
     ELSE DetectOk(R, xs, e.sh, e.t, e.truth, pos, e.ok, e.r)
RobustOk(e) ==
  LET xs == IF e.canon = 1 THEN Canon(R, Len(e.sh)) ELSE e.xs
      n == 3 * e.t + 1
  IN IF Len(e.sh) < n \/ Len(xs) < n THEN e.ok = 0
     ELSE IF e.canon = 0 THEN CorrectOk(R, xs, e.sh, e.t, e.truth, e.ok, IF e.ok = 1 THEN e.r[1] ELSE <<>>, IF e.ok = 1 THEN e.r[2] ELSE <<>>)
     ELSE Cardinality(Wrong(R, SubSeq(xs, 1, n), SubSeq(e.sh, 1, n), e.truth)) <= e.t => (e.ok = 1 /\ e.r = e.truth[1])
(* packed sharings: secrets at pts, degree at most deg, n >= deg + 1 shares *)
PackOk(e) ==
  LET d == e.deg
      f == d + 1 - Len(e.s)
  IN IF Len(e.s) > d + 1 THEN e.ok = 0
     ELSE /\ e.ok = 1 /\ Len(e.r) = e.count
          /\ \A i \in 1..e.count :
               /\ Len(e.r[i][1]) = e.n
               /\ RDegLe(R, e.pts \o Canon(R, e.n), e.s \o e.r[i][1], d)
               /\ e.r[i][2] <= d
          /\ Fresh(R, [i \in 1..e.count |-> SubSeq(e.r[i][1], 1, f)], f)
          /\ Fresh(R, [i \in 1..e.count |-> SubSeq(e.r[i][1], e.n - f + 1, e.n)], f)
UnpackOk(e) == e.ok = 1 /\ e.r = InterpAt(R, Canon(R, Len(e.sh)), e.sh, e.pts)
EvOk(e) ==
  CASE e.kind = "xy" -> IF Len(e.x) # Len(e.y) \/ Len(e.x) = 0 THEN e.ok = 0
                        ELSE e.ok = 1 /\ e.r = <<e.x, e.y, Len(e.y) - 1, e.x[1]>>
    [] e.kind = "start" -> IF Len(e.y) = 0 THEN e.ok = 0
                           ELSE e.ok = 1 /\ e.r = <<[i \in 1..Len(e.y) |-> RAdd(R, e.x[1], RSmall(R, i - 1))], e.y, Len(e.y) - 1, e.x[1]>>
    [] e.kind = "y" -> IF Len(e.y) = 0 THEN e.ok = 0
                       ELSE e.ok = 1 /\ e.r = <<[i \in 1..Len(e.y) |-> RSmall(R, i - 1)], e.y, Len(e.y) - 1, RZero(R)>>
    [] e.kind = "const" -> e.ok = 1 /\ e.r = <<<<RZero(R)>>, <<e.y[1]>>, 0, RZero(R)>>
    [] e.kind = "none" -> e.ok = 1 /\ e.r = <<<<RZero(R)>>, <<RZero(R)>>, 0, RZero(R)>>
EvAtOk(e) == e.ok = 1 /\ \A v \in {InterpAt(R, e.x, e.y, e.z)} : e.r = <<v, v>>
EvArithOk(e) ==
  IF e.x # e.u THEN e.ok = 0
  ELSE /\ e.ok = 1
       /\ e.r[1] = InterpAt(R, e.x, IF e.op = "evadd" THEN RVAdd(R, e.y, e.v) ELSE RVSub(R, e.y, e.v), e.z)
       /\ e.r[2] = InterpAt(R, e.x, e.y, e.z)
AddOk(e) ==
  IF e.n = 0 THEN e.ok = 0
  ELSE /\ e.ok = 1 /\ Len(e.r) = e.count
       /\ \A i \in 1..e.count : Len(e.r[i]) = e.n /\ RVSum(R, e.r[i]) = e.s
       /\ Fresh(R, [i \in 1..e.count |-> SubSeq(e.r[i], 1, e.n - 1)], e.n - 1)
       /\ Fresh(R, [i \in 1..e.count |-> SubSeq(e.r[i], 2, e.n)], e.n - 1)
Ok(e) ==
  CASE e.op = "share" -> ShareOk(e)
    [] e.op = "sharep" -> SharePolyOk(e)
    [] e.op = "alphas" -> e.ok = 1 /\ e.r = Canon(R, e.n)
    [] e.op = "recp" -> PassiveOk(e)
    [] e.op = "rec" -> ActiveOk(e)
    [] e.op = "rob" -> RobustOk(e)
    [] e.op = "pack" -> PackOk(e)
    [] e.op = "unpack" -> UnpackOk(e)
    [] e.op = "ev" -> EvOk(e)
    [] e.op = "evat" -> EvAtOk(e)
    [] e.op \in {"evadd", "evsub"} -> EvArithOk(e)
    [] e.op = "add" -> AddOk(e)
    [] e.op = "addrec" -> e.ok = 1 /\ e.r = RVSum(R, e.sh)
    [] OTHER -> FALSE
Call == /\ l <= Len(Evs) /\ Evs[l].op # "end"
        /\ Ok(Evs[l]) = TRUE
        /\ l' = l + 1 /\ UNCHANGED run
Done == l = Len(Evs) /\ Evs[l].op = "end" /\ UNCHANGED vars
Next == Call \/ Done
=============================================================================
