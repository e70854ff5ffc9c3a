----------------------------- MODULE OrbitForms -----------------------------
(* Normal forms of the enumerated polynomials: one line per row, listing    *)
(* for each polynomial its degree, normal form and stabiliser, or zeros if  *)
(* it has a repeated factor.                                                *)
EXTENDS Rows, Orbits

Form(r, e) ==
  LET F == Ext(r.fi, 1)  f == Trim(F, PolyOver(r.fi, 1, e))
  IN  IF ~SquareFree(F, f) \/ Deg(f) < 3 THEN <<0, 0, 0>>
      ELSE LET nf == NormalForm(F, f) IN <<Deg(f), nf[1], nf[2]>>

RecordOK == row > 0 =>
  LET r == Log[row]
  IN  /\ TablesOK[r.fi]
      /\ PrintT("FORMS " \o ToString(row) \o " " \o ToString([i \in 1..Len(r.polys) |-> Form(r, r.polys[i])]))
=============================================================================
