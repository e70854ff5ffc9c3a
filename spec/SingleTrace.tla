---------------------------- MODULE SingleTrace -----------------------------
(* Recorded outputs of the single-curve program (C04).                      *)
(*                                                                          *)
(* row: p, coeffs (BigNat, lowest first), g, and outs: for each counting    *)
(* method what was printed: poly (coefficients, lowest first), pts, hw, ram.*)
(* Small primes are decided with the fields of module Field over all the    *)
(* extensions; primes up to 2^17 (genus one) with integer arithmetic.       *)
EXTENDS Rows, HyperCurve

Reduce(limbs, p) == FoldRight(LAMBDA d, acc : ((acc * 10000) + d) % p, limbs, 0)

RECURSIVE TrimInt(_)
TrimInt(f) == IF Len(f) = 0 THEN f ELSE IF f[Len(f)] = 0 THEN TrimInt(SubSeq(f, 1, Len(f) - 1)) ELSE f
Reduced(r) == TrimInt(TLCEval([i \in 1..Len(r.coeffs) |-> Reduce(r.coeffs[i], r.p)]))

FieldKeys == UNION {IF Log[i].large THEN {} ELSE {<<Log[i].p, k>> : k \in 1..Log[i].g} : i \in 1..Len(Log)}
FieldTab == TLCEval([k \in FieldKeys |-> BuildField(k[1], k[2])])
Over(f, F) == TLCEval([i \in 1..Len(f) |-> OfInt(F, f[i])])

-----------------------------------------------------------------------------
(* integers modulo p < 2^17 *)
MulP(a, b, p) == (((((a * (b \div 8192)) % p) * 8192) + (a * (b % 8192))) % p)
EvalP(f, x, p) == FoldRight(LAMBDA c, acc : (MulP(acc, x, p) + c) % p, f, 0)
PolyP(terms, p) ==
  \* sum of signed coefficient times product of factors
  FoldLeft(LAMBDA acc, t : (acc + (p + MulP(FoldLeft(LAMBDA m, x : MulP(m, x, p), (IF t[1] < 0 THEN -t[1] ELSE t[1]) % p, t[2]),
                                          IF t[1] < 0 THEN p - 1 ELSE 1, p))) % p, 0, terms)
Disc3(f, p) ==
  LET a == f[4] b == f[3] c == f[2] d == f[1]
  IN  PolyP(<< <<1, <<b,b,c,c>>>>, <<-4, <<a,c,c,c>>>>, <<-4, <<b,b,b,d>>>>, <<-27, <<a,a,d,d>>>>, <<18, <<a,b,c,d>>>> >>, p)
Disc4(f, p) ==
  LET a == f[5] b == f[4] c == f[3] d == f[2] e == f[1]
  IN  PolyP(<< <<256, <<a,a,a,e,e,e>>>>, <<-192, <<a,a,b,d,e,e>>>>, <<-128, <<a,a,c,c,e,e>>>>, <<144, <<a,a,c,d,d,e>>>>,
               <<-27, <<a,a,d,d,d,d>>>>, <<144, <<a,b,b,c,e,e>>>>, <<-6, <<a,b,b,d,d,e>>>>, <<-80, <<a,b,c,c,d,e>>>>,
               <<18, <<a,b,c,d,d,d>>>>, <<16, <<a,c,c,c,c,e>>>>, <<-4, <<a,c,c,c,d,d>>>>, <<-27, <<b,b,b,b,e,e>>>>,
               <<18, <<b,b,b,c,d,e>>>>, <<-4, <<b,b,b,d,d,d>>>>, <<-4, <<b,b,c,c,c,e>>>>, <<1, <<b,b,c,c,d,d>>>> >>, p)
Disc(f, p) == IF Len(f) = 4 THEN Disc3(f, p) ELSE Disc4(f, p)

LargePrimes == {Log[i].p : i \in {j \in 1..Len(Log) : Log[j].large}}
SquaresTab == TLCEval([p \in LargePrimes |-> {MulP(x, x, p) : x \in 1..((p - 1) \div 2)}])

LargePoints(f, p) ==
  LET val == TLCEval([x \in 0..(p-1) |-> EvalP(f, x, p)])
      sq == SquaresTab[p]
  IN  << 2 * Cardinality({x \in 0..(p-1) : val[x] # 0 /\ val[x] \in sq})
           + (IF Len(f) = 5 /\ f[5] \in sq THEN 2 ELSE 0),
         Cardinality({x \in 0..(p-1) : val[x] = 0}) + (IF Len(f) = 4 THEN 1 ELSE 0) >>
\* degree 3 and 4: the number of roots determines the factor degrees, except that a quartic
\* without roots is a product of two quadratics iff its discriminant is a square (Stickelberger)
LargeRam(f, p, roots) ==
  IF Len(f) = 4 THEN (CASE roots = 3 -> <<1,1,1,1>> [] roots = 1 -> <<1,1,2>> [] roots = 0 -> <<1,3>>)
  ELSE (CASE roots = 4 -> <<1,1,1,1>> [] roots = 2 -> <<1,1,2>> [] roots = 1 -> <<1,3>>
          [] roots = 0 -> (IF Disc4(f, p) \in SquaresTab[p] THEN <<2,2>> ELSE <<4>>))

-----------------------------------------------------------------------------
\* what has to be printed: points, offsets, ramification
Truth(r, f) ==
  IF r.large
  THEN LET pt == LargePoints(f, r.p)
       IN  [pts |-> <<pt>>, hw |-> <<Offset(r.p, pt)>>, ram |-> LargeRam(f, r.p, pt[2] - (IF Len(f) = 4 THEN 1 ELSE 0))]
  ELSE LET g == Genus(f)
           pts == TLCEval([k \in 1..g |-> LET F == FieldTab[<<r.p, k>>] IN Points(F, Over(f, F))])
           F1 == FieldTab[<<r.p, 1>>]
       IN  [pts |-> pts, hw |-> TLCEval([k \in 1..g |-> Offset(Pow(r.p, k), pts[k])]), ram |-> Ramification(F1, Over(f, F1))]

InDomain(r, f) ==
  /\ Len(f) > 3
  /\ IF r.large THEN Len(f) <= 5 /\ Disc(f, r.p) # 0
     ELSE Genus(f) = r.g /\ (LET F == FieldTab[<<r.p, 1>>] IN SquareFree(F, Over(f, F)))

OutOK(o, f, t) == o.poly = f /\ o.pts = t.pts /\ o.hw = t.hw /\ o.ram = t.ram

RecordOK == row > 0 =>
  LET r == Log[row]  f == Reduced(r)
  IN  InDomain(r, f) =>
        LET t == TLCEval(Truth(r, f)) IN \A i \in 1..Len(r.outs) : OutOK(r.outs[i], f, t)
=============================================================================
