-------------------------------- MODULE Poly --------------------------------
(* Polynomials over a field F of module Field: sequences f with f[i] the    *)
(* coefficient of X^{i-1}; normal form has non-zero last entry, <<>> is 0.  *)
EXTENDS Field

RECURSIVE Trim(_, _)
Trim(F, f) == IF Len(f) = 0 THEN f
              ELSE IF f[Len(f)] = Zero(F) THEN Trim(F, SubSeq(f, 1, Len(f)-1)) ELSE f
Deg(f) == Len(f) - 1

PAdd(F, f, g) ==
  LET m == IF Len(f) > Len(g) THEN Len(f) ELSE Len(g)
      at(h, i) == IF i <= Len(h) THEN h[i] ELSE Zero(F)
  IN  Trim(F, TLCEval([i \in 1..m |-> Add(F, at(f, i), at(g, i))]))
PScale(F, a, f) == IF a = Zero(F) THEN <<>> ELSE TLCEval([i \in 1..Len(f) |-> Mul(F, a, f[i])])
PSub(F, f, g) == PAdd(F, f, PScale(F, Neg(F, One(F)), g))
Shift(F, f, k) == IF f = <<>> THEN f ELSE TLCEval([i \in 1..k |-> Zero(F)] \o f)

PMul(F, f, g) ==
  IF f = <<>> \/ g = <<>> THEN <<>>
  ELSE TLCEval([k \in 1..(Len(f) + Len(g) - 1) |->
         FoldLeft(LAMBDA acc, i : IF k - i + 1 \in 1..Len(g) THEN Add(F, acc, Mul(F, f[i], g[k-i+1])) ELSE acc,
                  Zero(F), [i \in 1..Len(f) |-> i])])

\* remainder of f modulo non-zero g
RECURSIVE PMod(_, _, _)
PMod(F, f, g) ==
  IF Len(f) < Len(g) THEN f
  ELSE LET c == Mul(F, f[Len(f)], Inv(F, g[Len(g)]))
           k == Len(f) - Len(g)
           h == TLCEval([i \in 1..(Len(f)-1) |-> IF i <= k THEN f[i] ELSE Sub(F, f[i], Mul(F, c, g[i-k]))])
       IN  PMod(F, Trim(F, h), g)
\* quotient
RECURSIVE PDiv(_, _, _)
PDiv(F, f, g) ==
  IF Len(f) < Len(g) THEN <<>>
  ELSE LET c == Mul(F, f[Len(f)], Inv(F, g[Len(g)]))
           k == Len(f) - Len(g)
           h == Trim(F, TLCEval([i \in 1..(Len(f)-1) |-> IF i <= k THEN f[i] ELSE Sub(F, f[i], Mul(F, c, g[i-k]))]))
       IN  PAdd(F, TLCEval([i \in 1..(k+1) |-> IF i = k+1 THEN c ELSE Zero(F)]), PDiv(F, h, g))

RECURSIVE PGcd(_, _, _)
PGcd(F, f, g) == IF g = <<>> THEN f ELSE PGcd(F, g, TLCEval(PMod(F, f, g)))

Derivative(F, f) ==
  IF Len(f) <= 1 THEN <<>>
  ELSE Trim(F, TLCEval([i \in 1..(Len(f)-1) |-> Mul(F, OfInt(F, i), f[i+1])]))

Eval(F, f, x) == FoldRight(LAMBDA c, acc : Add(F, Mul(F, acc, x), c), f, Zero(F))

PMulMod(F, f, g, m) == PMod(F, PMul(F, f, g), m)
RECURSIVE PPowMod(_, _, _, _)
PPowMod(F, f, e, m) ==
  IF e = 0 THEN PMod(F, <<One(F)>>, m)
  ELSE LET h == TLCEval(PPowMod(F, f, e \div 2, m))
           s == TLCEval(PMulMod(F, h, h, m))
       IN  IF e % 2 = 0 THEN s ELSE PMulMod(F, s, f, m)

(* No repeated factor over the algebraic closure: over a perfect field this *)
(* is gcd(f, f') = 1.                                                       *)
SquareFree(F, f) == Len(f) > 0 /\ Len(PGcd(F, f, Derivative(F, f))) = 1

(* The same by definition over F: no square of a monic polynomial of        *)
(* positive degree divides f (used to validate SquareFree).                 *)
Monics(F, d) == { Append(c, One(F)) : c \in [1..d -> Elements(F)] }
SquareFreeDef(F, f) ==
  Len(f) > 0 /\ \A d \in 1..(Deg(f) \div 2) : \A h \in Monics(F, d) : PMod(F, f, PMul(F, h, h)) # <<>>

(* Degrees of the irreducible factors of a square-free f, ascending, by     *)
(* distinct degree factorisation.                                           *)
RECURSIVE DDF(_, _, _, _)
DDF(F, f, k, xq) ==
  IF Deg(f) <= 0 THEN <<>>
  ELSE IF 2*k > Deg(f) THEN <<Deg(f)>>
  ELSE LET x  == PMod(F, <<Zero(F), One(F)>>, f)
           y  == TLCEval(PPowMod(F, xq, F.q, f))
           d  == TLCEval(PSub(F, y, x))
           g  == TLCEval(IF d = <<>> THEN f ELSE PGcd(F, f, d))
           f2 == TLCEval(PDiv(F, f, g))
       IN  [i \in 1..(Deg(g) \div k) |-> k]
           \o (IF Deg(f2) <= 0 THEN <<>> ELSE DDF(F, f2, k+1, PMod(F, y, f2)))
FactorDegrees(F, f) == IF Deg(f) <= 0 THEN <<>> ELSE DDF(F, f, 1, PMod(F, <<Zero(F), One(F)>>, f))
=============================================================================
