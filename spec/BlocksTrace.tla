----------------------------- MODULE BlocksTrace ----------------------------
(* Recorded enumerations of the real BlockIterator: row.l is the layout,    *)
(* row.pk the packages in order, with the box, the tuples visited when the  *)
(* box is enumerated again (vb) and by its own sub-iterator (ve).           *)
EXTENDS Rows, SequencesExt, FiniteSets
VARIABLES L, pos, ended, seen
B == INSTANCE Blocks WITH Layouts <- {}

OnceEach(list, set) == Len(list) = Cardinality(set) /\ {list[i] : i \in 1..Len(list)} = set

RecordOK ==
  row > 0 =>
  LET r == Log[row]
      boxes == [i \in 1..Len(r.pk) |-> r.pk[i].box]
  IN  /\ r.len = r.l.len
      /\ r.ended /\ r.stays
      /\ B!Partition(r.l, boxes)
      /\ \A i \in 1..Len(r.pk) :
           LET s == B!Box(r.pk[i].box)
           IN  /\ r.pk[i].fin
               /\ OnceEach(r.pk[i].vb, s)
               /\ OnceEach(r.pk[i].ve, s)
               /\ r.pk[i].pos \in s

Unused == L = 0 /\ pos = 0 /\ ended = FALSE /\ seen = {}
TraceSpec == RowInit /\ Unused /\ [][RowNext /\ UNCHANGED <<L, pos, ended, seen>>]_<<row, L, pos, ended, seen>>
=============================================================================
