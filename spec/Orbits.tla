------------------------------- MODULE Orbits -------------------------------
(* Orbits of polynomials of degree d over F_q under X -> aX + b and scaling *)
(* by units (C02). Two polynomials of degree d are in the same orbit iff    *)
(* they have the same normal form: the least monic c f(aX + b), among those *)
(* without term of degree d-1 if the characteristic does not divide d.      *)
EXTENDS Fields

\* f(X + b)
Translate(F, f, b) ==
  FoldRight(LAMBDA c, acc :
     IF acc = <<>> THEN <<c>>
     ELSE TLCEval([i \in 1..(Len(acc) + 1) |->
            Add(F, IF i > 1 THEN acc[i-1] ELSE c, IF i <= Len(acc) THEN Mul(F, acc[i], b) ELSE Zero(F))]),
     f, <<>>)

\* code of the monic multiple of h(aX), a the element with exponent ea
MonicCode(F, h, ea) ==
  LET d == Len(h) - 1  l == h[Len(h)]  m == F.q - 1
  IN  FoldRight(LAMBDA i, acc :
         (acc * F.q) + (IF h[i] = m THEN m ELSE ((h[i] - l) + (d - (i - 1)) * (m - ea) + m) % m),
         [i \in 1..d |-> i], 0)

Shifts(F, f) ==
  LET d == Len(f) - 1
  IN  IF d % F.p = 0 THEN Elements(F)
      ELSE {Neg(F, Mul(F, Mul(F, f[d], Inv(F, f[d+1])), Inv(F, OfInt(F, d))))}

\* normal form and number of affine substitutions that preserve the line of f
NormalForm(F, f) ==
  LET codes == TLCEval([b \in Shifts(F, f) |->
                 LET h == Translate(F, f, b) IN TLCEval([ea \in 0..(F.q - 2) |-> MonicCode(F, h, ea)])])
      least == TLCEval([b \in DOMAIN codes |-> FoldLeft(LAMBDA m, e : IF codes[b][e] < m THEN codes[b][e] ELSE m, codes[b][0], [e \in 1..(F.q - 2) |-> e])])
      all == {least[b] : b \in DOMAIN least}
      mn == CHOOSE x \in all : \A y \in all : x <= y
      hits == FoldLeft(LAMBDA n, b : IF least[b] = mn THEN n + Cardinality({e \in 0..(F.q - 2) : codes[b][e] = mn}) ELSE n,
                       0, SetToSeq(DOMAIN codes))
  IN  <<mn, hits>>
=============================================================================
