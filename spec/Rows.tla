-------------------------------- MODULE Rows --------------------------------
(* Frame for checking recorded values: every recorded row of a JSON-lines   *)
(* file is one state, the invariant RecordOK of the extending module is     *)
(* evaluated in it. Rows are reached in strides so that TLC's workers share *)
(* the evaluation.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.ROWS))

Stride == 32

VARIABLE row

\* the start states are no rows, so that the evaluation of all rows is shared
RowInit == row \in (1 - Stride)..0
RowNext == row + Stride <= Len(Log) /\ row' = row + Stride
RowSpec == RowInit /\ [][RowNext]_row

\* every row has been visited (the check is not vacuous)
AllRowsSeen == TLCGet("stats").distinct = Len(Log) + Stride /\ Len(Log) > 0
=============================================================================
