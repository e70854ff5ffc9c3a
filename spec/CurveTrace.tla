----------------------------- MODULE CurveTrace -----------------------------
(* Recorded histories of calls on one Curve object: the state of the object *)
(* is the set of extension degrees counted so far; every answer is          *)
(* determined by the polynomial and that set.                               *)
(*                                                                          *)
(* row: fi (field), exps (coefficient exponents), ops (calls in order):     *)
(*   C/N/Z k  count over degree k (table, naive nmod, naive Zech)           *)
(*   S sqf | R ram | P pts | H hw | L k pl hl max                           *)
(* degrees k in the log are absolute (over F_p), as in the implementation.  *)
EXTENDS Rows, Fields

Nz(r) == LET z == QOf(r.fi) - 1 IN Trim([q |-> QOf(r.fi)], r.exps)

\* the calls up to the j-th have counted these absolute degrees
Counted(r, j) == {r.ops[i].k : i \in {m \in 1..j : r.ops[m].op \in {"C", "N", "Z"}}}
AllCounted(r) == Counted(r, Len(r.ops))

Asc(S) == SortSeq(SetToSeq(S), <)

RECURSIVE OpsOK(_, _, _, _, _, _)
\* pts: points by absolute degree; f: polynomial over F_q
OpsOK(r, j, n, f, pts, ram) ==
  IF j > Len(r.ops) THEN TRUE
  ELSE LET o == r.ops[j]  cs == Counted(r, j)
           off(k) == Offset(Pow(Tab[r.fi].p, k), pts[k])
           mx == LET m == {k \in 1..20 : \A i \in 1..k : n*i \in cs} IN IF m = {} THEN 0 ELSE CHOOSE x \in m : \A y \in m : y <= x
       IN  /\ CASE o.op = "S" -> o.sqf = SquareFree(Ext(r.fi, 1), f)
                [] o.op = "R" -> o.ram = ram
                [] o.op = "P" -> /\ Len(o.pts) = Cardinality(cs)
                                 /\ \A i \in 1..Len(o.pts) : o.pts[i][1] = Asc(cs)[i]
                                 /\ \A i \in 1..Len(o.pts) : <<o.pts[i][2], o.pts[i][3]>> = pts[o.pts[i][1]]
                [] o.op = "H" -> /\ Len(o.hw) = Cardinality(cs)
                                 /\ \A i \in 1..Len(o.hw) : o.hw[i][1] = Asc(cs)[i] /\ o.hw[i][2] = off(o.hw[i][1])
                [] o.op = "L" -> /\ o.max = n * mx
                                 /\ Len(o.pl) = o.k \div n /\ Len(o.hl) = o.k \div n
                                 /\ \A i \in 1..(o.k \div n) : o.pl[i] = pts[n*i] /\ o.hl[i] = off(n*i)
                [] OTHER -> TRUE
           /\ OpsOK(r, j+1, n, f, pts, ram)

CurveOK(r) ==
  LET n    == Tab[r.fi].n
      ex   == Nz(r)
      f    == PolyOver(r.fi, 1, ex)
      cs   == AllCounted(r)
      pts  == TLCEval([k \in cs |-> Points(Ext(r.fi, k \div n), PolyOver(r.fi, k \div n, ex))])
      needRam == \E j \in 1..Len(r.ops) : r.ops[j].op = "R"
      ram  == IF needRam THEN Ramification(Ext(r.fi, 1), f) ELSE <<>>
  IN  \* only square-free polynomials of degree at least three define curves
      (Len(ex) > 3 /\ SquareFree(Ext(r.fi, 1), f)) =>
      /\ r.kept = ex
      /\ r.deg = Deg(ex) /\ r.genus = Genus(ex)
      /\ r.support = Asc({i \in 0..Deg(ex) : ex[i+1] # QOf(r.fi) - 1})
      /\ OpsOK(r, 1, n, f, pts, ram)

\* many polynomials at once: only square-freeness
SquaresOK(r) ==
  \A j \in 1..Len(r.polys) :
     r.sqf[j] = SquareFree(Ext(r.fi, 1), Trim(Ext(r.fi, 1), PolyOver(r.fi, 1, r.polys[j])))

RecordOK == row > 0 =>
  LET r == Log[row]
  IN  TablesOK[r.fi] /\ (IF r.kind = "curve" THEN CurveOK(r) ELSE SquaresOK(r))
=============================================================================
