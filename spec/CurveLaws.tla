----------------------------- MODULE CurveLaws ------------------------------
(* Point counts over extensions that are too large to be recounted (C03).   *)
(* Let a_k = q^k + 1 - #C(F_{q^k}). The first g of them, recounted here,    *)
(* determine all: P(T) = sum c_i T^i with k c_k = - sum_{i=1..k} a_i c_{k-i}*)
(* for k <= g, c_{2g-i} = q^{g-i} c_i, and the same recursion for k > g     *)
(* gives a_k (c_i = 0 beyond 2g). The ramified points over F_{q^k} are the  *)
(* points of the factors whose degree divides k.                            *)
(* row: fi, exps, and pts = <<k, unramified, ramified>> for all degrees     *)
(* counted, relative to F_q.                                                *)
EXTENDS Rows, Fields

Sum(n, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])

LPoly(q, g, a) ==
  LET low == FoldLeft(LAMBDA c, k : Append(c, (0 - Sum(k, LAMBDA i : a[i] * c[k - i + 1])) \div k), <<1>>, [k \in 1..g |-> k])
  IN  TLCEval([i \in 1..(2*g + 1) |-> IF i <= g + 1 THEN low[i] ELSE Pow(q, i - 1 - g) * low[2*g + 2 - i]])

\* a_1 .. a_n from a_1 .. a_g
Continue(g, c, a, n) ==
  FoldLeft(LAMBDA s, k : LET C(i) == IF i <= 2*g THEN c[i + 1] ELSE 0
                         IN  Append(s, 0 - k * C(k) - Sum(k - 1, LAMBDA i : s[i] * C(k - i))), a, [j \in 1..(n - g) |-> g + j])

RecordOK == row > 0 =>
  LET r == Log[row]  q == QOf(r.fi)  f == PolyOver(r.fi, 1, r.exps)  g == Genus(f)
      n == FoldLeft(LAMBDA m, x : IF x[1] > m THEN x[1] ELSE m, g, r.pts)
  IN  /\ TablesOK[r.fi]
      /\ SquareFree(Ext(r.fi, 1), f) =>
           LET a == TLCEval([k \in 1..g |-> Offset(Pow(q, k), Points(Ext(r.fi, k), PolyOver(r.fi, k, r.exps)))])
               c == LPoly(q, g, a)
               s == TLCEval(Continue(g, c, a, n))
               ram == Ramification(Ext(r.fi, 1), f)
               R(k) == Sum(Len(ram), LAMBDA i : IF k % ram[i] = 0 THEN ram[i] ELSE 0)
           IN  /\ \A k \in 1..g : k * c[k+1] = 0 - Sum(k, LAMBDA i : a[i] * c[k - i + 1])
               /\ Len(r.pts) > 0
               /\ \A i \in 1..Len(r.pts) :
                    LET x == r.pts[i] IN x[3] = R(x[1]) /\ Offset(Pow(q, x[1]), <<x[2], x[3]>>) = s[x[1]]
=============================================================================
