-------------------------------- MODULE Laws --------------------------------
(* Laws every census obeys, whatever the size of the field and the genus    *)
(* (C08, C02, C06 where listing all right hand sides is out of reach).      *)
(* A table lists, for ramification type and offsets a_1, ..., a_e, the      *)
(* number of square-free right hand sides of the degrees 2g+1 (marked), or  *)
(* 2g+1 and 2g+2. Except for the last one the laws are about one table.     *)
(*                                                                          *)
(* Laws about a single line                                                 *)
(*   shape     the type is an ascending list of degrees with sum 2g+2, the  *)
(*             offsets are e in number                                      *)
(*   points    the offsets are those of a curve that covers the line: the   *)
(*             number of unramified points over F_{q^k} is even, at most    *)
(*             twice the unramified points of the line, and the number of   *)
(*             points of exact degree k is divisible by k                   *)
(*   weil      a_k^2 <= 4 g^2 q^k                                           *)
(*   zeta      a_1, ..., a_g determine the following ones                   *)
(* Laws about the table                                                     *)
(*   keys      each key once, no zero counts                                *)
(*   total     the number of all square-free polynomials                    *)
(*   pattern   their number for each factorisation pattern                  *)
(*   twist     the quadratic twist is an involution of the right hand sides *)
(*   moment1   the sum of a_2                                               *)
(*   moment2   the sum of a_1^2 (both by L-functions of characters whose    *)
(*             conductors have at most two points)                          *)
(*   trace     genus 1: the number for a trace a_1 = t is given by the      *)
(*             Hurwitz class number of t^2 - 4q                             *)
(*   marked    moving a rational branch point to infinity: a type with m    *)
(*             times the degree 1 and N right hand sides of degrees 2g+1    *)
(*             and 2g+2 has m N / (q+1) of degree 2g+1                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, BigNat, TLC

RECURSIVE SubC(_, _, _)
SubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET s == a[1] - (IF b = <<>> THEN 0 ELSE b[1]) - c
       IN  <<IF s < 0 THEN s + 10000 ELSE s>> \o SubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF s < 0 THEN 1 ELSE 0)
RECURSIVE Strip(_)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* a - b, a >= b
BSub(a, b) == TLCEval(Strip(SubC(a, b, 0)))
RECURSIVE BLeq(_, _)
BLeq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
  ELSE BLeq(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
BMulB(a, b) == TLCEval(FoldRight(LAMBDA x, acc : BAdd(BMul(a, x), IF acc = <<>> THEN acc ELSE <<0>> \o acc), b, <<>>))
BPow2(b, k) == FoldLeft(LAMBDA acc, i : BMulB(acc, b), <<1>>, [i \in 1..k |-> i])

Abs(x) == IF x < 0 THEN -x ELSE x
Divisors(k) == {d \in 1..k : k % d = 0}
SumOver(S, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, SetToSeq(S))

-----------------------------------------------------------------------------
(* lines *)
Mult(ram, k) == Cardinality({i \in 1..Len(ram) : ram[i] = k})
Shape(g, e, l) ==
  LET ram == l.k[1]
  IN  /\ FoldLeft(LAMBDA acc, x : acc + x, 0, ram) = 2*g + 2
      /\ \A i \in 1..Len(ram) : ram[i] >= 1 /\ (i > 1 => ram[i-1] <= ram[i])
      /\ Len(l.k[2]) = e

\* q^k, as far as TLC can represent it
PowN(q, k) == FoldLeft(LAMBDA acc, i : acc * q, 1, [i \in 1..k |-> i])
Points(q, l) ==
  LET a == l.k[2]  e == Len(a)
      N == TLCEval([k \in 1..e |-> PowN(q, k) + 1 - a[k]])
      R == TLCEval([k \in 1..e |-> SumOver(Divisors(k), LAMBDA d : d * Mult(l.k[1], d))])
      M == [k \in 1..e |-> SumOver(Divisors(k), LAMBDA d :          \* points of exact degree k: Moebius inversion
               LET m == k \div d
               IN  N[d] * (IF \E p \in 2..m : m % (p * p) = 0 THEN 0
                           ELSE IF Cardinality({p \in 2..m : m % p = 0 /\ \A x \in 2..(p-1) : p % x # 0}) % 2 = 0 THEN 1 ELSE -1))]
  IN  \A k \in 1..e :
        /\ N[k] >= R[k] /\ (N[k] - R[k]) % 2 = 0 /\ N[k] - R[k] <= 2 * (PowN(q, k) + 1 - R[k])
        /\ M[k] >= k * Mult(l.k[1], k) /\ M[k] % k = 0
Weil(q, g, l) == \A k \in 1..Len(l.k[2]) :
  LET a == OfNat(Abs(l.k[2][k])) IN BLeq(BMulB(a, a), BMul(BPow(q, k), 4 * g * g))

\* coefficients c_0, ..., c_{2g} of the numerator of the zeta function (index shifted by one) from a_1, ..., a_g
Numerator(q, g, a) ==
  LET low == FoldLeft(LAMBDA c, k : Append(c, (0 - SumOver(1..k, LAMBDA i : a[i] * c[k - i + 1])) \div k), <<1>>, [k \in 1..g |-> k])
  IN  TLCEval([j \in 1..(2*g + 1) |-> IF j <= g + 1 THEN low[j] ELSE PowN(q, j - 1 - g) * low[2*g + 2 - j]])
Zeta(q, g, l) ==
  LET a == l.k[2]
  IN  Len(a) > g =>
        LET c == Numerator(q, g, a)
        IN  \A k \in (g+1)..Len(a) :
              a[k] = -(IF k <= 2*g THEN k * c[k+1] ELSE 0) - SumOver({i \in 1..(k-1) : k - i <= 2*g}, LAMBDA i : a[i] * c[k - i + 1])

-----------------------------------------------------------------------------
(* tables: sequences of lines *)
Keys(t) == Cardinality({t[i].k : i \in 1..Len(t)}) = Len(t) /\ \A i \in 1..Len(t) : t[i].v # <<>>
Count(t, P(_)) == BSum([i \in 1..Len(SelectSeq(t, P)) |-> SelectSeq(t, P)[i].v])
CountAll(t) == FoldLeft(LAMBDA acc, l : BAdd(acc, l.v), <<>>, t)
Units2(q) == BMul(BPow(q - 1, 2), 1)
\* square-free polynomials of degree d >= 2
SquareFreeN(q, d) == BMulB(Units2(q), BPow(q, d - 1))
Total(q, degs, t) == CountAll(t) = BSum([i \in 1..Len(degs) |-> SquareFreeN(q, degs[i])])

\* k N_k for the number N_k of monic irreducible polynomials of degree k = 1, ..., m
Irreducible(q, m) ==
  FoldLeft(LAMBDA c, k : Append(c, BSub(BPow(q, k), FoldLeft(LAMBDA acc, d : BAdd(acc, c[d]), <<>>, SetToSeq(Divisors(k) \ {k})))),
           <<>>, [k \in 1..m |-> k])
\* x (x - k) ... , m factors (x a multiple of k)
RECURSIVE Falling(_, _, _)
Falling(x, k, m) == IF m = 0 THEN <<1>> ELSE IF x = <<>> THEN <<>> ELSE BMulB(x, Falling(BSub(x, OfNat(k)), k, m - 1))
Fact(m) == FoldLeft(LAMBDA acc, i : BMul(acc, i), <<1>>, [i \in 1..m |-> i])
Pattern(q, g, degs, t) ==
  LET irr == TLCEval(Irreducible(q, 2*g + 2))
      rams == {t[i].k[1] : i \in 1..Len(t)}
      \* the number of polynomials times the product of m_k! k^m_k
      prod(m, one) == FoldLeft(LAMBDA acc, k : BMulB(acc, Falling(irr[k], k, IF k = 1 THEN one ELSE m[k])), <<1>>, [k \in 1..(2*g + 2) |-> k])
  IN  \A ram \in rams :
        LET m == TLCEval([k \in 1..(2*g + 2) |-> Mult(ram, k)])
            even == IF \E i \in 1..Len(degs) : degs[i] = 2*g + 2 THEN prod(m, m[1]) ELSE <<>>
            odd == IF m[1] = 0 THEN <<>> ELSE BMul(prod(m, m[1] - 1), m[1])
            scale == FoldLeft(LAMBDA acc, k : BMulB(acc, BMulB(Fact(m[k]), BPow(k, m[k]))), <<1>>, [k \in 1..(2*g + 2) |-> k])
            sum == FoldLeft(LAMBDA acc, l : IF l.k[1] = ram THEN BAdd(acc, l.v) ELSE acc, <<>>, t)
        IN  BMulB(sum, scale) = BMul(BAdd(even, odd), q - 1)

TwistOf(k) == <<k[1], TLCEval([i \in 1..Len(k[2]) |-> IF i % 2 = 1 THEN -k[2][i] ELSE k[2][i]])>>
Twist(t) == LET S == TLCEval({<<t[i].k, t[i].v>> : i \in 1..Len(t)}) IN \A x \in S : <<TwistOf(x[1]), x[2]>> \in S

\* monic square-free polynomials of degree d >= 1 without a given root
RECURSIVE Rootless(_, _)
Rootless(q, d) == IF d = 0 THEN <<1>> ELSE IF d = 1 THEN OfNat(q - 1) ELSE IF d = 2 THEN BPow(q - 1, 2)
                  ELSE BAdd(BMul(Rootless(q, d - 1), q - 1), BMul(Rootless(q, d - 2), q))
Monics(q, d) == BMul(BPow(q, d - 1), q - 1)
\* both sides of the sum of a_1^2: for each degree what is added, and what is subtracted
Plus2(q, g, d) ==
  IF d % 2 = 1 THEN BMul(BAdd(BMul(Rootless(q, d), q), BMul(BMul(OfNat(q), q - 1), g*q - g - 1)), q - 1)
  ELSE BMul(BAdd(BMul(Rootless(q, d), q), Monics(q, d)), q - 1)
Minus2(q, g, d) ==
  IF d % 2 = 1 THEN <<>>
  ELSE BMul(BAdd(BMul(BMul(OfNat(q), q - 1), q*(g + 1) - g - 2), BMul(BMul(OfNat(q), 2), q - 1)), q - 1)
Over(degs, f(_)) == BSum([i \in 1..Len(degs) |-> f(degs[i])])
Moment2(q, g, degs, t) ==
  LET sum == FoldLeft(LAMBDA acc, l : BAdd(acc, BMul(BMul(l.v, Abs(l.k[2][1])), Abs(l.k[2][1]))), <<>>, t)
  IN  BAdd(sum, Over(degs, LAMBDA d : Minus2(q, g, d))) = Over(degs, LAMBDA d : Plus2(q, g, d))

\* minus the sum of a_2, what is added and what is subtracted
Quad(q) == BMul(OfNat(q), q - 1)
Plus1(q, d) ==
  LET points == BAdd(BMul(Rootless(q, d), q), IF d % 2 = 0 THEN Monics(q, d) ELSE <<>>)
      chi == IF d % 4 = 0 THEN Quad(q) ELSE IF d % 4 = 3 THEN BMul(Quad(q), q) ELSE <<>>
  IN  BMul(BAdd(points, chi), q - 1)
Minus1(q, d) == BMul(IF d % 4 = 1 THEN Quad(q) ELSE IF d % 4 = 2 THEN BMul(Quad(q), q) ELSE <<>>, q - 1)
Moment1(q, degs, t) ==
  t # <<>> /\ Len(t[1].k[2]) >= 2 =>
    LET part(s) == FoldLeft(LAMBDA acc, l : IF s * l.k[2][2] > 0 THEN BAdd(acc, BMul(l.v, Abs(l.k[2][2]))) ELSE acc, <<>>, t)
    IN  BAdd(part(1), Over(degs, LAMBDA d : Plus1(q, d))) = BAdd(part(-1), Over(degs, LAMBDA d : Minus1(q, d)))

\* six times the Hurwitz class number of the discriminant -D: reduced forms a X^2 + b XY + c Y^2
Hurwitz6(D) ==
  LET amax == CHOOSE a \in 0..D : 3 * a * a <= D /\ 3 * (a + 1) * (a + 1) > D
      forms(a) == {b \in (1 - a)..a : (b * b + D) % (4 * a) = 0 /\ (b * b + D) \div (4 * a) >= a
                                      /\ ((b * b + D) \div (4 * a) = a => b >= 0)}
      w(a, b) == LET c == (b * b + D) \div (4 * a) IN IF a = c /\ b = 0 THEN 3 ELSE IF a = c /\ b = a THEN 2 ELSE 6
  IN  FoldLeft(LAMBDA acc, a : acc + SumOver(forms(a), LAMBDA b : w(a, b)), 0, [a \in 1..amax |-> a])
Trace(p, q, g, degs, t) ==
  g = 1 =>
    LET traces == {t[i].k[2][1] : i \in 1..Len(t)}
    IN  \A x \in {y \in traces : q = p \/ y % p # 0} :
          /\ x * x <= 4 * q
          /\ LET sum == FoldLeft(LAMBDA acc, l : IF l.k[2][1] = x THEN BAdd(acc, l.v) ELSE acc, <<>>, t)
             IN  BMul(sum, 12) = BMul(BMul(BMul(BPow(q - 1, 2), q), Hurwitz6(4*q - x*x)), IF Len(degs) = 2 THEN q + 1 ELSE 1)

\* all: table of both degrees, odd: table of degree 2g+1
Marked(q, all, odd) ==
  LET has == SelectSeq(all, LAMBDA l : Mult(l.k[1], 1) > 0)
  IN  {<<has[i].k, BMul(has[i].v, Mult(has[i].k[1], 1))>> : i \in 1..Len(has)} = {<<odd[i].k, BMul(odd[i].v, q + 1)>> : i \in 1..Len(odd)}
=============================================================================
