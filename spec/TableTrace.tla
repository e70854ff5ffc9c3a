----------------------------- MODULE TableTrace -----------------------------
(* Recorded element tables (C19). Elements are base p codes of their        *)
(* coordinates with respect to the powers of T, T the generator of the      *)
(* field extension used by the implementation. No assumption is made on     *)
(* which modulus or which multiplicative generator it uses: T^n is read off *)
(* the table, and the table is then checked to be the list of all powers of *)
(* its second entry in F_p[T]/(modulus). If that ring has q-1 distinct      *)
(* powers of one element it is a field.                                     *)
EXTENDS Rows, SequencesExt, FiniteSets

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n-1)

\* products modulo m < 2^30 without exceeding 32 bits
RECURSIVE MulMod(_, _, _)
MulMod(a, b, m) ==
  IF m <= 46340 THEN (a * b) % m
  ELSE IF b = 0 THEN 0
  ELSE (((MulMod(a, b \div 2, m) * 2) % m) + (IF b % 2 = 1 THEN a ELSE 0)) % m

Digits(c, p, n) == TLCEval([i \in 1..n |-> (c \div Pow(p, i-1)) % p])
CodeOf(d, p) == FoldRight(LAMBDA x, acc : acc * p + x, d, 0)

\* d * T, where T^n has digits t
TimesT(d, t, p, n) ==
  TLCEval([i \in 1..n |-> (((IF i = 1 THEN 0 ELSE d[i-1]) + (d[n] * t[i])) % p)])
RECURSIVE Prod(_, _, _, _, _)
\* digits of a times b (b from its lowest digit)
Prod(a, b, t, p, n) ==
  IF b = <<>> THEN [i \in 1..n |-> 0]
  ELSE LET rest == Prod(TimesT(a, t, p, n), Tail(b), t, p, n)
       IN  TLCEval([i \in 1..n |-> (rest[i] + (a[i] * b[1])) % p])

PosIn(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x

\* a + b modulo p on digits, and the order of counting: all classes of units modulo m-th powers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

PrimeTable(r) ==
  \A i \in 1..(Len(r.el) - 2) : r.el[i+1] = MulMod(r.el[i], r.el[2], r.p)

ExtTable(r) ==
  LET q == Len(r.el)
      eT == PosIn(r.el, r.p) - 1                          \* T has code p
      t == Digits(r.el[((eT * r.n) % (q - 1)) + 1], r.p, r.n)
      g == Digits(r.el[2], r.p, r.n)
  IN  \A i \in 1..(q - 2) : r.el[i+1] = CodeOf(Prod(Digits(r.el[i], r.p, r.n), g, t, r.p, r.n), r.p)

\* the representatives are exponents; a unit g^e is an m-th power iff gcd(m, q-1) divides e
CosetsOK(q, c) ==
  LET d == Gcd(c.m, q - 1)
  IN  /\ \A i \in 1..Len(c.reps) : c.reps[i] \in 0..(q - 2)
      /\ Len(c.reps) = d
      /\ {c.reps[i] % d : i \in 1..Len(c.reps)} = 0..(d - 1)

TableOK(r) ==
  LET q == Pow(r.p, r.n)
  IN  /\ Len(r.el) = q
      /\ r.all = <<0, q>> /\ r.nonzero = <<0, q - 1>> /\ r.zero = q - 1
      /\ r.el[1] = 1 /\ r.el[q] = 0
      /\ {r.el[i] : i \in 1..q} = 0..(q - 1)              \* every element, hence each once
      /\ q > 3 => (IF r.n = 1 THEN PrimeTable(r) ELSE ExtTable(r))
      /\ r.views
      /\ \A i \in 1..Len(r.cosets) : CosetsOK(q, r.cosets[i])

RecordOK == row > 0 => TableOK(Log[row])
=============================================================================
