------------------------------ MODULE LawsTrace -----------------------------
(* Merged results of complete runs against the laws of spec/Laws.tla.       *)
(* Rows: q, p, g, e, all (lines of the table of degrees 2g+1 and 2g+2), odd *)
(* (lines of the table with marked point), has (which of them are given),   *)
(* laws (names of the laws to be checked).                                  *)
EXTENDS Rows, Laws

Law(r, name, degs, t) ==
  CASE name = "shape" -> \A i \in 1..Len(t) : Shape(r.g, r.e, t[i])
    [] name = "points" -> \A i \in 1..Len(t) : Points(r.q, t[i])
    [] name = "weil" -> \A i \in 1..Len(t) : Weil(r.q, r.g, t[i])
    [] name = "zeta" -> \A i \in 1..Len(t) : Zeta(r.q, r.g, t[i])
    [] name = "keys" -> Keys(t)
    [] name = "total" -> Total(r.q, degs, t)
    [] name = "pattern" -> Pattern(r.q, r.g, degs, t)
    [] name = "twist" -> Twist(t)
    [] name = "moment1" -> Moment1(r.q, degs, t)
    [] name = "moment2" -> Moment2(r.q, r.g, degs, t)
    [] name = "trace" -> Trace(r.p, r.q, r.g, degs, t)
    [] name = "marked" -> Len(r.has) = 2 => Marked(r.q, r.all, r.odd)
    [] OTHER -> Assert(FALSE, "no such law")
Holds(r, name) ==
  /\ (\E i \in 1..Len(r.has) : r.has[i] = "all") => Law(r, name, <<2*r.g + 1, 2*r.g + 2>>, r.all)
  /\ (\E i \in 1..Len(r.has) : r.has[i] = "odd") => Law(r, name, <<2*r.g + 1>>, r.odd)
RowOK(r) == \A i \in 1..Len(r.laws) : Holds(r, r.laws[i]) \/ (PrintT("BROKEN " \o r.laws[i]) /\ FALSE)
RecordOK == row < 1 \/ RowOK(Log[row])
=============================================================================
