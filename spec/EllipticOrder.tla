--------------------------- MODULE EllipticOrder ---------------------------
(* Point counts of genus one over prime fields with up to 2^25 elements     *)
(* (C03, C04): the points of B y^2 = f(x), f of degree three, form a group  *)
(* with the point at infinity as zero, so that the number of points         *)
(* annihilates every point. With B = f(x) the curve has the point (x, 1);   *)
(* it is isomorphic to y^2 = f(x), with N points, if B is a square, and to  *)
(* the twist, with 2p + 2 - N points, otherwise. A number within Hasse's    *)
(* bound that annihilates all sampled points is the number of points, up to *)
(* multiples of the orders of these points.                                 *)
(* The number of ramified points is found by x^p mod f.                     *)
(* row: p, f (coefficients, lowest first), pts <<unramified, ramified>>,    *)
(* hw, ram (empty if not recorded), xs: values of x                         *)
EXTENDS Rows, SequencesExt

\* a, b < p < 2^25: 32 * acc + 31 * a < 2^31
Mul(a, b, p) ==
  LET d(i) == (b \div i) % 32
      st(acc, i) == (((32 * acc) + (a * d(i))) % p)
  IN  st(st(st(st(st(0, 1048576), 32768), 1024), 32), 1)
Sub(a, b, p) == (a + p - b) % p
RECURSIVE Pow(_, _, _)
Pow(a, k, p) == IF k = 0 THEN 1 ELSE LET h == Pow(a, k \div 2, p)  s == Mul(h, h, p) IN IF k % 2 = 0 THEN s ELSE Mul(s, a, p)
Inv(a, p) == Pow(a, p - 2, p)
Eval(f, x, p) == (Mul((Mul((Mul(f[4], x, p) + f[3]) % p, x, p) + f[2]) % p, x, p) + f[1]) % p
Diff(f, x, p) == (Mul((Mul(Mul(3 % p, f[4], p), x, p) + Mul(2, f[3], p)) % p, x, p) + f[2]) % p

\* the group of B y^2 = f(x); <<>> is its zero
Add(f, B, P, Q, p) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE IF P[1] = Q[1] /\ (P[2] + Q[2]) % p = 0 THEN <<>>
  ELSE LET s == IF P = Q THEN Mul(Diff(f, P[1], p), Inv(Mul(2, Mul(B, P[2], p), p), p), p)
                ELSE Mul(Sub(Q[2], P[2], p), Inv(Sub(Q[1], P[1], p), p), p)
           x == Sub(Sub(Mul(Sub(Mul(B, Mul(s, s, p), p), f[3], p), Inv(f[4], p), p), P[1], p), Q[1], p)
       IN  <<x, Sub(Mul(s, Sub(P[1], x, p), p), P[2], p)>>
RECURSIVE Times(_, _, _, _, _)
Times(f, B, k, P, p) ==
  IF k = 0 THEN <<>> ELSE LET H == Times(f, B, k \div 2, P, p)  D == Add(f, B, H, H, p)
                          IN  IF k % 2 = 0 THEN D ELSE Add(f, B, D, P, p)

Annihilates(f, n, x, p) ==
  LET B == Eval(f, x, p)
  IN  B = 0 \/ LET k == IF Pow(B, (p - 1) \div 2, p) = 1 THEN n ELSE 2*p + 2 - n
               IN  Times(f, B, k, <<x, 1>>, p) = <<>>

\* polynomials of degree at most two, <<constant, linear, quadratic>>, modulo f
MulF(a, b, f, p) ==
  LET c(k) == LET t(i) == IF i <= 2 /\ k - i <= 2 /\ k - i >= 0 THEN Mul(a[i+1], b[k-i+1], p) ELSE 0 IN (((t(0) + t(1)) % p) + t(2)) % p
      l == Inv(f[4], p)
      u == Mul(c(4), l, p)                      \* subtract u x f
      c3 == Sub(c(3), Mul(u, f[3], p), p)
      v == Mul(c3, l, p)
  IN  <<Sub(c(0), Mul(v, f[1], p), p), Sub(Sub(c(1), Mul(u, f[1], p), p), Mul(v, f[2], p), p), Sub(Sub(c(2), Mul(u, f[2], p), p), Mul(v, f[3], p), p)>>
RECURSIVE PowF(_, _, _, _)
PowF(a, k, f, p) == IF k = 0 THEN <<1,0,0>> ELSE LET h == PowF(a, k \div 2, f, p)  s == MulF(h, h, f, p) IN IF k % 2 = 0 THEN s ELSE MulF(s, a, f, p)

\* number of roots of f: 3 iff x^p = x modulo f; 0 or 1 according to the rank of Frobenius' fixed space,
\* which for square-free f is the number of factors: 3, 2 or 1
Factors(f, p) ==
  LET y == TLCEval(PowF(<<0,1,0>>, p, f, p))  z == TLCEval(MulF(y, y, f, p))
      \* x -> x^p has the matrix with rows 1, y, z; fixed space of dimension 3 - rank(matrix - 1)
      a == <<y[1], Sub(y[2], 1, p), y[3]>>   b == <<z[1], z[2], Sub(z[3], 1, p)>>
      dep(i, j) == Mul(a[i], b[j], p) = Mul(a[j], b[i], p)
  IN  IF a = <<0,0,0>> /\ b = <<0,0,0>> THEN 3
      ELSE IF dep(1,2) /\ dep(1,3) /\ dep(2,3) THEN 2 ELSE 1
Pattern(k) == CASE k = 3 -> <<1,1,1,1>> [] k = 2 -> <<1,1,2>> [] k = 1 -> <<1,3>>
RamPoints(k) == CASE k = 3 -> 4 [] k = 2 -> 2 [] k = 1 -> 1

Disc(f, p) ==
  LET M(s) == FoldLeft(LAMBDA x, y : Mul(x, y, p), 1, s)  a == f[4] b == f[3] c == f[2] d == f[1]
  IN  Sub((M(<<b,b,c,c>>) + M(<<18 % p,a,b,c,d>>)) % p, (((M(<<4 % p,a,c,c,c>>) + M(<<4 % p,b,b,b,d>>)) % p) + M(<<27 % p,a,a,d,d>>)) % p, p)

\* a number with absolute value below 2^14 or so
Hasse(a, p) == a < 11600 /\ 0 - a < 11600 /\ a * a <= 4 * p

RecordOK == row > 0 =>
  LET r == Log[row]  p == r.p  f == r.f
  IN  (Disc(f, p) # 0 /\ f[4] # 0) =>
        LET n == r.pts[1] + r.pts[2]  k == Factors(f, p)
        IN  /\ n > 0 /\ n < 2*p + 2 /\ Hasse(p + 1 - n, p)
            /\ r.hw = p + 1 - n
            /\ r.pts[2] = RamPoints(k)
            /\ r.ram = <<>> \/ r.ram = Pattern(k)
            /\ \A i \in 1..Len(r.xs) : Annihilates(f, n, r.xs[i], p)
=============================================================================
