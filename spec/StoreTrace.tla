----------------------------- MODULE StoreTrace -----------------------------
(* Recorded histories of calls on stores, and recorded file round trips and *)
(* merges.                                                                  *)
(*                                                                          *)
(* State of a history: one table per store object, the static table and the *)
(* static record shared by all of them.  Row kinds:                         *)
(*   hist   ops R register, F hand over, X take, I write, E read            *)
(*   rec    blocks written and read back                                    *)
(*   tab    lines read, written, read and written again                     *)
(*   merge  input files and outcome of one run of the merger                *)
EXTENDS Rows, Fields, Tally

CurveKey(fi, exps, ks) ==
  LET n == Tab[fi].n
      ex == Trim([q |-> QOf(fi)], exps)
      cs == RecordOf(ks)
      \* consecutive extensions counted
      mx == LET m == {k \in 1..20 : \A i \in 1..k : n*i \in cs} IN IF m = {} THEN 0 ELSE CHOOSE x \in m : \A y \in m : y <= x
      pts(k) == Points(Ext(fi, k), PolyOver(fi, k, ex))
  IN  << Ramification(Ext(fi, 1), PolyOver(fi, 1, ex)),
         TLCEval([k \in 1..mx |-> Offset(Pow(Tab[fi].p, n*k), pts(k))]) >>

Step(r, s, o) ==
  CASE o.op = "R" -> [s EXCEPT !.st[o.s] = TLCEval(Register(@, CurveKey(r.fi, o.exps, o.ks), o.mult))]
    [] o.op = "F" -> [s EXCEPT !.all = TSum(@, s.st[o.s]), !.rec = @ \cup {o.block}, !.st[o.s] = Empty]
    [] o.op = "X" -> [s EXCEPT !.ok = @ /\ IsText(o.lines, s.all) /\ IsRecord(o.record, s.rec), !.all = Empty, !.rec = {}]
    [] o.op = "I" -> [s EXCEPT !.ok = @ /\ IsText(o.lines, s.st[o.s])]
    [] o.op = "E" -> [s EXCEPT !.st[o.s] = TSum(@, TableOf(o.lines))]

HistOK(r) ==
  LET z == 0 IN
  FoldLeft(LAMBDA s, o : IF s.ok THEN TLCEval(Step(r, s, o)) ELSE s,
           [st |-> [i \in 1..r.ns |-> Empty], all |-> Empty, rec |-> {}, ok |-> TRUE], r.ops).ok

RecOK(r) == IsRecord(r.back, RecordOf(r.blocks))
TabOK(r) == LET T == TableOf(r.lines) IN IsText(r.out, T) /\ IsText(r.again, T)

\* files: [rec, store: present?, blocks, lines]
MergeOK(r) ==
  LET inp == {i \in 1..Len(r.files) : r.files[i].rec}
      refused == \E i \in inp : ~r.files[i].store
      T == FoldLeft(LAMBDA acc, i : IF i \in inp THEN TSum(acc, TableOf(r.files[i].lines)) ELSE acc, Empty, [i \in 1..Len(r.files) |-> i])
      R == UNION {RecordOf(r.files[i].blocks) : i \in inp}
  IN  IF refused \/ r.blocked THEN r.status # 0
      ELSE /\ r.status = 0
           /\ IsText(r.outlines, T)
           /\ IsRecord(r.outblocks, R)

RecordOK == row > 0 =>
  LET r == Log[row]
  IN  CASE r.kind = "hist"  -> TablesOK[r.fi] /\ HistOK(r)
        [] r.kind = "rec"   -> RecOK(r)
        [] r.kind = "tab"   -> TabOK(r)
        [] r.kind = "merge" -> MergeOK(r)
=============================================================================
