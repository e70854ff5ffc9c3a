------------------------------ MODULE DiscSelf ------------------------------
(* Self-validation of the integer arithmetic of SingleTrace against module  *)
(* Field: discriminants, factor degrees and points for all cubics and       *)
(* quartics over F_3, F_5 and all cubics over F_7.                           *)
EXTENDS SingleTrace
CONSTANT SelfTest
Sq(p) == {(x*x) % p : x \in 1..(p-1)}
IntPolys(p, d) == {Append(c, l) : c \in [1..d -> 0..(p-1)], l \in 1..(p-1)}
One_(p, d) ==
  LET F == BuildField(p, 1)
  IN  \A f \in IntPolys(p, d) :
        LET g == Over(f, F)  sf == SquareFree(F, g)
            roots == Cardinality({x \in 0..(p-1) : EvalP(f, x, p) = 0})
        IN  /\ sf <=> Disc(f, p) # 0
            /\ (sf /\ d = 4 /\ roots = 0) => (FactorDegrees(F, g) = <<2,2>> <=> Disc4(f, p) \in Sq(p))
            /\ sf => Cardinality({i \in 1..Len(FactorDegrees(F, g)) : FactorDegrees(F, g)[i] = 1}) = roots
VARIABLE t
SInit == t \in -4..0 /\ row = 0
SNext == t <= 0 /\ t' = t + 5 /\ UNCHANGED row
SelfOK == t > 0 => (CASE t = 1 -> One_(3, 3) [] t = 2 -> One_(3, 4) [] t = 3 -> One_(5, 3) [] t = 4 -> One_(5, 4) [] t = 5 -> One_(7, 3))
=============================================================================
