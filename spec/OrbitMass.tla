----------------------------- MODULE OrbitMass ------------------------------
(* The weights of C02. Row kinds:                                           *)
(*   orbit: all enumerated representatives of one orbit (w: multiplicities),*)
(*          of degree d, with stabiliser of order stab among the affine     *)
(*          substitutions: the orbit has q (q-1)^2 / stab elements          *)
(*   total: multiplicities of all representatives: the square-free          *)
(*          polynomials of degree d >= 2 are (q-1)^2 q^{d-1} in number      *)
EXTENDS Rows, SequencesExt, BigNat, FiniteSets

Admissible(r) == IF r.marked THEN {2*r.g + 1} ELSE {2*r.g + 1, 2*r.g + 2}

RecordOK == row > 0 =>
  LET r == Log[row]
      s == BMul(BSum(r.w), 2)
  IN  IF r.kind = "orbit"
      THEN /\ r.d \in Admissible(r)
           /\ BMul(s, r.stab) = BMul(BPow(r.q - 1, 2), r.q)
      ELSE s = BSum(SetToSeq({ BMul(BMul(BPow(r.q, d - 1), r.q - 1), r.q - 1) : d \in Admissible(r) }))
=============================================================================
