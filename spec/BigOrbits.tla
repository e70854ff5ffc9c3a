----------------------------- MODULE BigOrbits ------------------------------
(* Weights of single orbits in enumerations that are too large to be listed *)
(* (C02). Let q be the order of the field, and f of degree d without term of*)
(* degree t, where t = d-1 if d is prime to the characteristic; otherwise   *)
(* t = d-2, and f has a term of degree d-1. Translations X + b change the   *)
(* term of degree t, so the polynomials of the orbit of f that lack it are  *)
(* c f(aX), whose exponents are e_i + i alpha + gamma modulo q-1; this needs*)
(* no arithmetic in the field.                                              *)
(* If N pairs (alpha, gamma) lead into the packages, and k pairs preserve f,*)
(* N/k representatives weigh (with twist) 2 mult N/k, and the orbit has     *)
(* q (q-1)^2 / k elements.                                                  *)
(* A row has one enumeration (packages as boxes of indices) and polynomials *)
(* with their multiplicity. fi: the number of a table of the field, or zero *)
(* for fields that are too large, where only polynomials are taken that are *)
(* square-free for a simple reason.                                         *)
EXTENDS Rows, Fields, BigNat

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* a natural number times any natural number
BMulN(x, m) == IF m < 100000 THEN BMul(x, m)
               ELSE LET h == BMul(x, m \div 10000) IN BAdd(BMul(x, m % 10000), IF h = <<>> THEN h ELSE <<0>> \o h)

RECURSIVE MulMod(_, _, _)
MulMod(x, y, m) == IF y = 0 THEN 0
                   ELSE LET h == MulMod(x, y \div 2, m)  t == (h + h) % m IN IF y % 2 = 1 THEN (t + x) % m ELSE t

Support(q, e) == {i \in 1..Len(e) : e[i] # q - 1}

(* 4 a^3 + 27 b^2 # 0 if -3a is no square, and -3 is a square iff q # 2 mod *)
(* 3 (characteristic above 3); x^4 + a x^2 + b with b no square.            *)
Sure(q, p, e) ==
  LET S == Support(q, e)  d == Len(e) - 1
      a(i) == e[i+1]
      CubicOK(x, y) == p > 3 /\ (((x - y) % 2 = 1) = (q % 3 = 1))
  IN  \/ S = {1, d+1} /\ d % p # 0
      \/ S = {2, d+1} /\ (d-1) % p # 0
      \/ d = 3 /\ S = {1, 2, 4} /\ CubicOK(a(1), a(3))
      \/ d = 4 /\ S = {2, 3, 5} /\ CubicOK(a(2), a(4))
      \/ d = 4 /\ S = {1, 3, 5} /\ (a(0) - a(4)) % 2 = 1

Good(r, e) ==
  /\ Len(e) >= 4 /\ e[Len(e)] # r.q - 1
  /\ IF (Len(e) - 1) % r.p # 0 THEN e[Len(e) - 1] = r.q - 1 ELSE e[Len(e) - 1] # r.q - 1 /\ e[Len(e) - 2] = r.q - 1
  /\ IF r.fi = 0 THEN Sure(r.q, r.p, e) ELSE TablesOK[r.fi] /\ SquareFree(Ext(r.fi, 1), PolyOver(r.fi, 1, e))

\* number of pairs (alpha, gamma) that lead into box b
Lower(b, i) == b[i][1]
Upper(q, b, i) == IF b[i][2] < q - 1 THEN b[i][2] ELSE q - 1
Size(q, b, i) == IF Upper(q, b, i) > Lower(b, i) THEN Upper(q, b, i) - Lower(b, i) ELSE 0
Covers0(q, b, i) == b[i][1] <= q - 1 /\ q - 1 < b[i][2]

Reachable(q, b, e) ==
  /\ Len(b) >= Len(e)
  /\ \A i \in 1..Len(b) : IF i <= Len(e) /\ e[i] # q - 1 THEN Size(q, b, i) > 0 ELSE Covers0(q, b, i)

Hits(q, b, e) ==
  LET m == q - 1  S == Support(q, e)
      i0 == CHOOSE i \in S : \A j \in S : Size(q, b, i) <= Size(q, b, j)
      i1 == CHOOSE i \in S \ {i0} : \A j \in S \ {i0} : Size(q, b, i) <= Size(q, b, j)
      R == S \ {i0, i1}
      \* the difference of the exponents, as a positive number
      df == IF i1 > i0 THEN i1 - i0 ELSE i0 - i1
      g == Gcd(df, m)  mg == m \div g  dg == df \div g
      \* dg s = 1 modulo mg
      s == IF mg = 1 THEN 0 ELSE (1 + mg * (CHOOSE t \in 0..(dg - 1) : (1 + mg * t) % dg = 0)) \div dg
      In(x, i) == Lower(b, i) <= x /\ x < Upper(q, b, i)
      \* alpha with (i1 - i0) alpha = c
      Alphas(c0) == LET c == IF i1 > i0 THEN c0 ELSE (m - c0) % m
                    IN  IF c % g # 0 THEN {} ELSE LET a0 == MulMod((c \div g) % mg, s % mg, mg) IN {a0 + j * mg : j \in 0..(g - 1)}
      At(v0, v1) ==
        LET c == ((v1 - e[i1]) - (v0 - e[i0]) + 2 * m) % m
        IN  Cardinality({al \in Alphas(c) :
                LET ga == (v0 - e[i0] - (i0 - 1) * al) % m
                IN  \A j \in R : In((e[j] + (j - 1) * al + ga) % m, j)})
      Values(i) == [x \in 1..Size(q, b, i) |-> Lower(b, i) + x - 1]
  IN  IF R = {}
      THEN \* v1 in its range with v1 = v0 - e0 + e1 modulo g, times g
           g * FoldLeft(LAMBDA n, v0 :
                 LET c == (v0 - e[i0] + e[i1]) % g
                     Below(x) == (x - c + g - 1) \div g      \* how many of c, c+g, .. are below x
                 IN  n + (Below(Upper(q, b, i1)) - Below(Lower(b, i1))), 0, TLCEval(Values(i0)))
      ELSE FoldLeft(LAMBDA n, v0 : n + FoldLeft(LAMBDA k, v1 : k + At(v0, v1), 0, TLCEval(Values(i1))), 0, TLCEval(Values(i0)))

Weight(r, e) == FoldLeft(LAMBDA n, b : IF Reachable(r.q, b, e) THEN n + Hits(r.q, b, e) ELSE n, 0, r.boxes)

\* a package that also contains translates of f is not treated here
Decidable(r, d) == \A i \in 1..Len(r.boxes) :
  LET b == r.boxes[i]
  IN  (Len(b) > d /\ Size(r.q, b, d+1) > 0) =>
         IF d % r.p # 0 THEN Size(r.q, b, d) = 0 ELSE Size(r.q, b, d) = 0 \/ Size(r.q, b, d-1) = 0

Admissible(r, d) == d \in (IF r.marked THEN {2*r.g + 1} ELSE {2*r.g + 1, 2*r.g + 2})

PolyOK(r, x) ==
  LET d == Len(x.e) - 1
  IN  IF ~Good(r, x.e) \/ ~Decidable(r, d) THEN PrintT("SKIPPED " \o ToString(row))
      ELSE IF Admissible(r, d)
           THEN BMulN(BMul(x.mult, 2), Weight(r, x.e)) = BMulN(BMulN(BMulN(<<1>>, r.q), r.q - 1), r.q - 1)
           ELSE Weight(r, x.e) = 0

RecordOK == row > 0 => LET r == Log[row] IN \A i \in 1..Len(r.polys) : PolyOK(r, r.polys[i])
=============================================================================
