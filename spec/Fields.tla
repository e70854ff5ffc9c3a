------------------------------- MODULE Fields -------------------------------
(* Binding of the implementation's fields to those of module Field.         *)
(*                                                                          *)
(* IOEnv.FIELDS lists recorded element tables: p, n, el = codes of the      *)
(* implementation's elements in the order of its exponents (zero last),     *)
(* with respect to its own generator T of F_{p^n}, and ks, the extension    *)
(* degrees used.  No assumption is made on the modulus of T.                *)
EXTENDS HyperCurve, Json, IOUtils

Tab == TLCEval(ndJsonDeserialize(IOEnv.FIELDS))
QOf(i) == Pow(Tab[i].p, Tab[i].n)

\* T^n as coefficients in T, read off the table (T has code p)
LOCAL PosIn(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
Digit(code, p, i) == (code \div Pow(p, i)) % p

\* the table lists every element code once, 1 first and 0 last
ShapeOK(i) == /\ Len(Tab[i].el) = QOf(i)
              /\ {Tab[i].el[j] : j \in 1..Len(Tab[i].el)} = 0..(QOf(i) - 1)
              /\ Tab[i].el[1] = 1 /\ Tab[i].el[QOf(i)] = 0
ModCode(i) ==
  LET e1 == PosIn(Tab[i].el, Tab[i].p) - 1
  IN  Tab[i].el[((e1 * Tab[i].n) % (QOf(i) - 1)) + 1]

FieldKeys == {<<Tab[i].p, Tab[i].n * Tab[i].ks[j]>> : <<i, j>> \in
               UNION {{<<i, j>> : j \in 1..Len(Tab[i].ks)} : i \in 1..Len(Tab)}}
FieldTab == TLCEval([k \in FieldKeys |-> BuildField(k[1], k[2])])
Ext(i, k) == FieldTab[<<Tab[i].p, Tab[i].n * k>>]

\* powers of an element of F
EPow(F, a, k) == IF k = 0 THEN One(F) ELSE IF a = Zero(F) THEN a ELSE (a * k) % (F.q - 1)

CodeAt(F, p, n, code, th) ==
  FoldLeft(LAMBDA acc, j : LET d == Digit(code, p, j) IN IF d = 0 THEN acc
              ELSE Add(F, acc, Mul(F, OfInt(F, d), EPow(F, th, j))), Zero(F), [j \in 1..n |-> j-1])

\* images of T in the extension: roots of its minimal polynomial
Thetas(i, k) ==
  LET F == Ext(i, k)  p == Tab[i].p  n == Tab[i].n  m == ModCode(i)
  IN  {x \in Elements(F) : EPow(F, x, n) = CodeAt(F, p, n, m, x)}

\* implementation exponent e (from 0) -> element of Ext(i, k)
ConvTab ==
  TLCEval([i \in 1..Len(Tab) |->
     [j \in 1..Len(Tab[i].ks) |->
        IF ~ShapeOK(i) THEN <<>>
        ELSE LET k == Tab[i].ks[j]  F == Ext(i, k)
             IN  IF Tab[i].n = 1
                 THEN [e \in 1..QOf(i) |-> OfInt(F, Tab[i].el[e])]
                 ELSE LET T == Thetas(i, k)
                      IN  IF T = {} THEN <<>>
                          ELSE LET th == CHOOSE x \in T : TRUE
                               IN  [e \in 1..QOf(i) |-> CodeAt(F, Tab[i].p, Tab[i].n, Tab[i].el[e], th)]]])
Conv(i, k) == ConvTab[i][PosIn(Tab[i].ks, k)]

\* the table is that of the powers of one element: conversion is multiplicative
TableOK(i) ==
  /\ ShapeOK(i)
  /\ LET k == Tab[i].ks[1]  F == Ext(i, k)  c == Conv(i, k)
     IN  /\ c # <<>>
         /\ c[1] = One(F) /\ c[QOf(i)] = Zero(F)
         /\ \A e \in 1..(QOf(i) - 2) : c[e+1] = Mul(F, c[e], c[2])
TablesOK == TLCEval([i \in 1..Len(Tab) |-> TableOK(i)])

\* polynomial with implementation exponents as coefficients -> over Ext(i, k)
PolyOver(i, k, exps) == LET c == Conv(i, k) IN TLCEval([j \in 1..Len(exps) |-> c[exps[j] + 1]])
=============================================================================
