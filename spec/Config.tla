------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configuration files, as sequences of character codes.  A line is        *)
(* id,host,port.  Of every line it is said whether it must be accepted     *)
(* ("ok"), must be refused ("bad"), or is left to the implementation       *)
(* ("maybe": blanks around numbers, plus signs, leading zeros, port 0,     *)
(* blanks or commas in the host), and what it says if it is accepted.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NL == 10
Comma == 44
Blanks == {32, 9, 13, 11, 12}
Digits == 48..57
RECURSIVE SplitAt(_, _, _)
SplitAt(s, from, acc) ==
  LET k == {i \in from..Len(s) : s[i] = NL} IN
  IF k = {} THEN IF from > Len(s) THEN acc ELSE Append(acc, SubSeq(s, from, Len(s)))
  ELSE LET m == CHOOSE i \in k : \A j \in k : i <= j IN SplitAt(s, m + 1, Append(acc, SubSeq(s, from, m - 1)))
Lines(s) == SplitAt(s, 1, <<>>)
Strip(s) ==
  LET k == {i \in 1..Len(s) : s[i] \notin Blanks} IN
  IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : j <= i)
(* a number: [cls, val]; val = -1 if it is larger than nine digits *)
RECURSIVE Value(_, _)
Value(s, i) == IF i = 0 THEN 0 ELSE (Value(s, i - 1) * 10) + (s[i] - 48)
NoZeros(s) == LET k == {i \in 1..Len(s) : s[i] # 48} IN IF k = {} THEN <<48>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, Len(s))
DigitsOnly(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digits
Nat9(s) == LET z == NoZeros(s) IN IF Len(z) > 9 THEN -1 ELSE Value(z, Len(z))
Number(s) ==
  LET t == Strip(s) IN
  CASE DigitsOnly(s) -> [cls |-> IF Len(s) > 1 /\ s[1] = 48 THEN "maybe" ELSE "ok", val |-> Nat9(s)]
    [] ~DigitsOnly(s) /\ DigitsOnly(t) -> [cls |-> "maybe", val |-> Nat9(t)]
    [] ~DigitsOnly(s) /\ ~DigitsOnly(t) /\ Len(t) > 1 /\ t[1] \in {43, 45} /\ DigitsOnly(Tail(t)) /\ (t[1] = 43 \/ Nat9(Tail(t)) = 0)
         -> [cls |-> "maybe", val |-> Nat9(Tail(t))]
    [] OTHER -> [cls |-> "bad", val |-> -1]
Line(s) ==
  LET k == {i \in 1..Len(s) : s[i] = Comma}
      first == CHOOSE i \in k : \A j \in k : i <= j
      last == CHOOSE i \in k : \A j \in k : j <= i
  IN IF Cardinality(k) < 2 THEN [cls |-> "bad", id |-> -1, host |-> <<>>, port |-> -1]
     ELSE LET id == Number(SubSeq(s, 1, first - 1))
              port == Number(SubSeq(s, last + 1, Len(s)))
              host == SubSeq(s, first + 1, last - 1)
              plain == \A i \in 1..Len(host) : host[i] \in 33..126 /\ host[i] # Comma
          IN [cls |-> IF id.cls = "bad" \/ port.cls = "bad" \/ id.val = -1 \/ port.val \notin 0..65535 \/ host = <<>> THEN "bad"
                      ELSE IF id.cls = "ok" /\ port.cls = "ok" /\ plain /\ port.val > 0 THEN "ok" ELSE "maybe",
              id |-> id.val, host |-> host, port |-> port.val]
(* a list of parties makes a configuration for party me *)
WellFormed(me, ids) == me \in 0..(Len(ids) - 1) /\ {ids[i] : i \in 1..Len(ids)} = 0..(Len(ids) - 1)
File(me, s) ==
  LET ls == [i \in 1..Len(Lines(s)) |-> Line(Lines(s)[i])]
      some(c) == \E i \in 1..Len(ls) : ls[i].cls = c
      ids == [i \in 1..Len(ls) |-> ls[i].id]
  IN [cls |-> IF some("bad") \/ ~WellFormed(me, ids) THEN "bad" ELSE IF some("maybe") THEN "maybe" ELSE "ok", rows |-> ls]
ById(rows) == [i \in 1..Len(rows) |-> rows[CHOOSE k \in 1..Len(rows) : rows[k].id = i - 1]]
=============================================================================
