------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little endian sequences of digits base      *)
(* 10^4 without leading zeros (TLC's integers have 32 bits).                *)
EXTENDS Integers, Sequences, SequencesExt, TLC
LOCAL Base == 10000
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfNat(n \div Base)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
           t(x) == IF x = <<>> THEN x ELSE Tail(x)
       IN  <<s % Base>> \o AddC(t(a), t(b), s \div Base)
BAdd(a, b) == TLCEval(AddC(a, b, 0))
RECURSIVE MulC(_, _, _)
\* times a natural number below 2*10^5
MulC(a, m, c) == IF a = <<>> THEN OfNat(c)
                 ELSE LET s == a[1] * m + c IN <<s % Base>> \o MulC(Tail(a), m, s \div Base)
BMul(a, m) == IF m = 0 THEN <<>> ELSE TLCEval(MulC(a, m, 0))
BSum(list) == FoldLeft(LAMBDA acc, x : BAdd(acc, x), <<>>, list)
RECURSIVE BPow(_, _)
BPow(m, k) == IF k = 0 THEN <<1>> ELSE BMul(BPow(m, k-1), m)
=============================================================================
