------------------------------- MODULE Field --------------------------------
(* Finite fields F_{p^n}, built by the specification itself.                *)
(*                                                                          *)
(* A field is a record F with a primitive polynomial chosen here (module    *)
(* PrimPolys, verified below: the powers of its root x run through all      *)
(* non-zero elements).  Elements are represented by exponents e in 0..q-2   *)
(* of x, and by Zero(F) = q-1.  The coordinates of an element with respect  *)
(* to 1,x,..,x^{n-1} are packed in the base p number Code.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, PrimPolys

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n-1)

\* multiplication of a code by x, modulo x^n + c[n] x^{n-1} + ... + c[1]
RECURSIVE SubDigits(_, _, _, _, _)
SubDigits(p, c, top, code, i) ==
  \* subtract top * (c[i] + c[i+1] x + ...) from the code of n-i+1 digits
  IF i > Len(c) THEN 0
  ELSE LET d == ((code % p) + (p * p) - (top * c[i])) % p
       IN  d + p * SubDigits(p, c, top, code \div p, i+1)

TimesX(p, n, q, c, code) ==
  LET pn1  == q \div p
      top  == code \div pn1
      rest == (code % pn1) * p
  IN  IF top = 0 THEN rest
      ELSE IF n = 1 THEN ((p - c[1]) * top) % p
      ELSE SubDigits(p, c, top, rest, 1)

BuildField(p, n) ==
  LET q    == Pow(p, n)
      c    == PrimPoly(p, n)
      exps == TLCEval(FoldLeft(LAMBDA acc, i : Append(acc, TimesX(p, n, q, c, acc[Len(acc)])),
                       <<1>>, [i \in 1..(q-2) |-> i]))
      logs == TLCEval(FoldLeft(LAMBDA acc, i : [acc EXCEPT ![exps[i+1] + 1] = i],
                       [k \in 1..q |-> q-1], [i \in 1..(q-1) |-> i-1]))
      zech == TLCEval([i \in 1..(q-1) |->
                LET k == exps[i] IN logs[(k - (k % p)) + (((k % p) + 1) % p) + 1]])
  IN  IF Cardinality({exps[i] : i \in 1..(q-1)}) # q-1 \/ 0 \in {exps[i] : i \in 1..(q-1)}
      THEN Assert(FALSE, <<"not primitive", p, n>>)
      ELSE [p |-> p, n |-> n, q |-> q, exp |-> exps, log |-> logs, zech |-> zech]

Zero(F) == F.q - 1
One(F)  == 0
CodeOf(F, a) == IF a = Zero(F) THEN 0 ELSE F.exp[a+1]
OfCode(F, k) == F.log[k+1]

Add(F, a, b) ==
  IF a = Zero(F) THEN b
  ELSE IF b = Zero(F) THEN a
  ELSE LET z == F.zech[(((b - a) + (F.q - 1)) % (F.q - 1)) + 1]
       IN  IF z = Zero(F) THEN z ELSE (a + z) % (F.q - 1)
Mul(F, a, b) == IF a = Zero(F) \/ b = Zero(F) THEN Zero(F) ELSE (a + b) % (F.q - 1)
Inv(F, a)    == ((F.q - 1) - a) % (F.q - 1)
Neg(F, a)    == IF a = Zero(F) THEN a ELSE (a + (F.q - 1) \div 2) % (F.q - 1)
Sub(F, a, b) == Add(F, a, Neg(F, b))
\* the integer m as an element of the prime field
OfInt(F, m)  == OfCode(F, m % F.p)
IsSquare(F, a) == a # Zero(F) /\ a % 2 = 0
Units(F)     == 0..(F.q - 2)
Elements(F)  == 0..(F.q - 1)
=============================================================================
