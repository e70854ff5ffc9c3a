---------------------------- MODULE CensusTrace -----------------------------
(* Merged results of complete runs of the program against the census.       *)
(* IOEnv.CENSUS: one row per (field, degree): q, d, parts (tables written   *)
(* by Census). Rows of the log: q, degrees, e, lines, and the merged record *)
(* rec of packages numbered 1..npk (0: none of the enumeration).            *)
EXTENDS Tally, Rows

Parts == TLCEval(ndJsonDeserialize(IOEnv.CENSUS))
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN 1 ELSE a * PowN(a, n-1)
Lines(i) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, Parts[i].parts)
\* the number of square-free polynomials of degree d >= 2 is (q-1) (q^d - q^(d-1))
ASSUME \A i \in 1..Len(Parts) : LET q == Parts[i].q  d == Parts[i].d  l == Lines(i)
         IN  FoldLeft(LAMBDA acc, x : acc + x[3], 0, l) = (q - 1) * (PowN(q, d) - PowN(q, d-1))
\* lines with the first e offsets only
Cut(i, e) == LET l == Lines(i) IN TLCEval([j \in 1..Len(l) |-> [k |-> <<l[j][1], SubSeq(l[j][2], 1, e)>>, v |-> OfNat(l[j][3])]])
Find(q, d) == CHOOSE i \in 1..Len(Parts) : Parts[i].q = q /\ Parts[i].d = d
\* tables asked for, computed once
Wanted == {<<Log[i].q, Log[i].degrees, Log[i].e>> : i \in 1..Len(Log)}
Want == TLCEval([w \in Wanted |-> FoldLeft(LAMBDA acc, d : TSum(acc, TableOf(Cut(Find(w[1], d), w[3]))), Empty, w[2])])

RowOK(r) == IsText(r.lines, Want[<<r.q, r.degrees, r.e>>]) /\ IsRecord(r.rec, 1..r.npk)
RecordOK == row < 1 \/ RowOK(Log[row])
=============================================================================
