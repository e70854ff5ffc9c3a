------------------------------ MODULE MathSelf ------------------------------
(* Self-validation of the mathematical layer: field axioms on all elements, *)
(* square-freeness and factor degrees against their definitions.            *)
EXTENDS HyperCurve
VARIABLE t

F3 == TLCEval(BuildField(3, 1))   F9 == TLCEval(BuildField(3, 2))
F5 == TLCEval(BuildField(5, 1))   F7 == TLCEval(BuildField(7, 1))

FieldOK(F) ==
  /\ \A a, b \in Elements(F) : Add(F, a, b) = Add(F, b, a)
  /\ \A a \in Elements(F) : Add(F, a, Neg(F, a)) = Zero(F) /\ Mul(F, a, One(F)) = a
  /\ \A a, b, c \in Elements(F) :
       /\ Add(F, Add(F, a, b), c) = Add(F, a, Add(F, b, c))
       /\ Mul(F, a, Add(F, b, c)) = Add(F, Mul(F, a, b), Mul(F, a, c))
  \* addition is coordinatewise modulo p
  /\ \A a, b \in Elements(F) :
       LET s(k) == k % F.p  u == CodeOf(F, a)  v == CodeOf(F, b)  w == CodeOf(F, Add(F, a, b))
       IN  s(w) = (s(u) + s(v)) % F.p /\ s(w \div F.p) = (s(u \div F.p) + s(v \div F.p)) % F.p
  /\ \A a \in Elements(F) : IsSquare(F, a) <=> (a # Zero(F) /\ \E b \in Elements(F) : Mul(F, b, b) = a)

Polys(F, d) == { Append(c, l) : c \in [1..d -> Elements(F)], l \in Units(F) }

SqfOK(F, d) == \A f \in Polys(F, d) : SquareFree(F, f) <=> SquareFreeDef(F, f)

Irreducible(F, f) == \A d \in 1..(Deg(f) \div 2) : \A h \in Monics(F, d) : PMod(F, f, h) # <<>>
\* the factor degrees of f say how many monic irreducible divisors of each degree there are
FactorsOK(F, d) ==
  LET irr == TLCEval([k \in 1..d |-> {h \in Monics(F, k) : Irreducible(F, h)}])
  IN  \A f \in { g \in Polys(F, d) : SquareFree(F, g) } :
        LET deg == FactorDegrees(F, f)
        IN  \A k \in 1..d : Cardinality({i \in 1..Len(deg) : deg[i] = k})
                            = Cardinality({h \in irr[k] : PMod(F, f, h) = <<>>})

Init == t \in -11..0
Next == t <= 0 /\ t' = t + 12
Spec == Init /\ [][Next]_t
TaskOK ==
  CASE t <= 0 -> TRUE [] t = 1 -> FieldOK(F3) [] t = 2 -> FieldOK(F5) [] t = 3 -> FieldOK(F9) [] t = 4 -> SqfOK(F3, 4)
    [] t = 5 -> SqfOK(F3, 6) [] t = 6 -> SqfOK(F5, 4) [] t = 7 -> SqfOK(F9, 3) [] t = 8 -> FactorsOK(F3, 5)
    [] t = 9 -> FactorsOK(F3, 4) [] t = 10 -> FactorsOK(F5, 4) [] t = 11 -> FactorsOK(F9, 3) [] t = 12 -> FactorsOK(F7, 3)
=============================================================================
