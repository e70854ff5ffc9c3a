------------------------------- MODULE Tally --------------------------------
(* Result tables and their text.                                            *)
(*                                                                          *)
(* A key is <<ramification type, offsets>>; a table maps finitely many keys *)
(* to counts (BigNat).  Curves are tallied on their own line and on the     *)
(* line of their quadratic twist.                                           *)
EXTENDS BigNat, FiniteSets

Empty == [k \in {} |-> <<>>]
TAdd(T, k, v) == IF k \in DOMAIN T THEN [T EXCEPT ![k] = BAdd(@, v)] ELSE (k :> v) @@ T
TSum(T, U) == TLCEval([k \in DOMAIN T \cup DOMAIN U |->
                 BAdd(IF k \in DOMAIN T THEN T[k] ELSE <<>>, IF k \in DOMAIN U THEN U[k] ELSE <<>>)])

TwistHW(o) == TLCEval([k \in 1..Len(o) |-> IF k % 2 = 1 THEN -o[k] ELSE o[k]])
TwistKey(k) == <<k[1], TwistHW(k[2])>>
Register(T, k, m) == TAdd(TAdd(T, k, m), TwistKey(k), m)

RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ SeqLess(Tail(a), Tail(b)))
KeyLess(a, b) == SeqLess(a[1], b[1]) \/ (a[1] = b[1] /\ SeqLess(a[2], b[2]))

-----------------------------------------------------------------------------
(* text *)
Join(s) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN ToString(x) ELSE acc \o "," \o ToString(x), "", s)
Pad4(x) == (IF x < 1000 THEN "0" ELSE "") \o (IF x < 100 THEN "0" ELSE "") \o (IF x < 10 THEN "0" ELSE "") \o ToString(x)
BText(b) == IF b = <<>> THEN "0"
            ELSE FoldLeft(LAMBDA acc, x : IF acc = "" THEN ToString(x) ELSE acc \o Pad4(x), "", Reverse(b))
LineText(k, v) == Join(k[1]) \o ";" \o Join(k[2]) \o ":" \o BText(v)

\* recorded lines: [k |-> <<ram, hw>>, v |-> limbs, t |-> text of the line]
LineOK(l) == l.t = LineText(l.k, l.v)
Ascending(lines) == \A i \in 1..(Len(lines) - 1) : KeyLess(lines[i].k, lines[i+1].k)
\* the lines are the text of table T
IsText(lines, T) ==
  /\ \A i \in 1..Len(lines) : LineOK(lines[i])
  /\ Ascending(lines)
  /\ {lines[i].k : i \in 1..Len(lines)} = DOMAIN T
  /\ \A i \in 1..Len(lines) : lines[i].v = T[lines[i].k]
\* the table that lines (of any order, keys repeated) stand for
TableOf(lines) == FoldLeft(LAMBDA acc, l : TAdd(acc, l.k, l.v), Empty, lines)
RecordOf(blocks) == {blocks[i] : i \in 1..Len(blocks)}
\* a record lists each package once
IsRecord(blocks, R) == RecordOf(blocks) = R /\ Cardinality(R) = Len(blocks)
=============================================================================
