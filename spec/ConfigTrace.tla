----------------------------- MODULE ConfigTrace -----------------------------
(* What configurations were made of files, of lists of parties, and of counts of local parties. *)
EXTENDS Config, TLC, Json, IOUtils
TraceRuns == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
vars == <<run, l>>
View == <<run, l>>
Alias == [run |-> run, l |-> l]
R == TraceRuns[run]
Init == l = 1 /\ run \in 1..Len(TraceRuns)
Localhost == <<49, 50, 55, 46, 48, 46, 48, 46, 49>>
Same(x, row) == x[1] = row.id /\ x[3] = row.port /\ (x[2] = row.host \/ x[2] = Strip(row.host))
(* the text the configuration prints as *)
Dec[n \in Nat] == IF n < 10 THEN <<48 + n>> ELSE Append(Dec[n \div 10], 48 + (n % 10))
Number10(n) == IF n < 0 THEN <<45>> \o Dec[-n] ELSE Dec[n]
RowText(x) == <<123>> \o Number10(x[1]) \o <<44, 32>> \o x[2] \o <<44, 32>> \o Number10(x[3]) \o <<125>>
RECURSIVE RowsText(_, _)
RowsText(xs, k) == IF k = 0 THEN <<>> ELSE RowsText(xs, k - 1) \o <<44, 32>> \o RowText(xs[k])
Text(id, xs) == <<91, 105, 100, 61>> \o Number10(id) \o RowsText(xs, Len(xs)) \o <<93>>
Holds(rows) ==
  /\ R.ok = 1 /\ R.id = R.me /\ R.size = Len(rows) /\ Len(R.parties) = Len(rows) /\ Len(R.get) = Len(rows)
  /\ \A i \in 1..Len(rows) : Same(R.get[i], ById(rows)[i])
  /\ {R.parties[i] : i \in 1..Len(rows)} = {R.get[i] : i \in 1..Len(rows)}
  /\ R.text = Text(R.me, R.parties)
Row(x) == [id |-> x[1], host |-> x[2], port |-> x[3]]
Right ==
  CASE R.op = "load" ->
         LET f == File(R.me, R.file) IN
         (f.cls = "ok" => R.ok = 1) /\ (f.cls = "bad" => R.ok = 0) /\ (R.ok \in {0, 1}) /\ (R.ok = 1 => Holds(f.rows))
    [] R.op = "list" ->
         LET rows == [i \in 1..Len(R.rows) |-> Row(R.rows[i])] IN
         IF WellFormed(R.me, [i \in 1..Len(rows) |-> rows[i].id]) THEN Holds(rows) ELSE R.ok = 0
    [] R.op = "local" ->
         IF R.me < R.n THEN Holds([i \in 1..R.n |-> [id |-> i - 1, host |-> Localhost, port |-> R.base + i - 1]]) ELSE R.ok = 0
Step == l = 1 /\ (Right = TRUE) /\ l' = 2 /\ UNCHANGED run
Next == Step \/ (l = 2 /\ UNCHANGED vars)
=============================================================================
