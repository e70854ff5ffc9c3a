----------------------------- MODULE HyperCurve -----------------------------
(* Hyperelliptic curves Y^2 = f(X), f square-free of degree >= 3 over F_q.  *)
EXTENDS Poly

Genus(f) == IF Deg(f) % 2 = 0 THEN (Deg(f) - 2) \div 2 ELSE (Deg(f) - 1) \div 2

(* Points of the smooth projective model over the field F of definition of  *)
(* the coefficients: <<unramified, ramified>>. At infinity there is one     *)
(* ramified point if the degree is odd, and two points if the degree is     *)
(* even and the leading coefficient is a square.                            *)
Points(F, f) ==
  LET val == TLCEval([x \in 0..(F.q-1) |-> Eval(F, f, x)])
      rootsN == Cardinality({x \in 0..(F.q-1) : val[x] = Zero(F)})
      squaresN == Cardinality({x \in 0..(F.q-1) : IsSquare(F, val[x])})
  IN  << 2*squaresN + (IF Deg(f) % 2 = 0 /\ IsSquare(F, f[Len(f)]) THEN 2 ELSE 0),
         rootsN + (IF Deg(f) % 2 = 1 THEN 1 ELSE 0) >>

\* q^k + 1 - #C(F_{q^k}), given the points over F_{q^k}
Offset(qk, pts) == qk + 1 - (pts[1] + pts[2])

Ramification(F, f) == IF Deg(f) % 2 = 1
                      THEN SortSeq(<<1>> \o FactorDegrees(F, f), <)
                      ELSE FactorDegrees(F, f)

\* offsets of the quadratic twist, offsets listed for k = 1, 2, ...
TwistOffsets(o) == [k \in 1..Len(o) |-> IF k % 2 = 1 THEN -o[k] ELSE o[k]]
=============================================================================
