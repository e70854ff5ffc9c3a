------------------------------ MODULE LazyInit ------------------------------
(* Tables of the arithmetic library that are completed at first use,        *)
(* without synchronization: a thread that finds them unmarked empties them, *)
(* fills them and marks them. Whoever computes needs the complete tables    *)
(* (C10, C09). Warm: the main thread uses them before it starts workers.    *)
EXTENDS Integers
CONSTANTS Workers, Warm, Uses
VARIABLES marked, full, pc, left
vars == <<marked, full, pc, left>>
Init == /\ marked = Warm /\ full = Warm /\ pc = [w \in Workers |-> "idle"] /\ left = [w \in Workers |-> Uses]
Go(w, l) == pc' = [pc EXCEPT ![w] = l]
Enter(w) == /\ pc[w] = "idle" /\ left[w] > 0 /\ left' = [left EXCEPT ![w] = @ - 1] /\ Go(w, IF marked THEN "compute" ELSE "empty") /\ UNCHANGED <<marked, full>>
Clear(w) == pc[w] = "empty" /\ full' = FALSE /\ Go(w, "fill") /\ UNCHANGED <<marked, left>>
Fill(w) == pc[w] = "fill" /\ full' = TRUE /\ Go(w, "mark") /\ UNCHANGED <<marked, left>>
Mark(w) == pc[w] = "mark" /\ marked' = TRUE /\ Go(w, "compute") /\ UNCHANGED <<full, left>>
Compute(w) == pc[w] = "compute" /\ Go(w, "idle") /\ UNCHANGED <<marked, full, left>>
Next == \E w \in Workers : Enter(w) \/ Clear(w) \/ Fill(w) \/ Mark(w) \/ Compute(w)
Spec == Init /\ [][Next]_vars
Complete == \A w \in Workers : pc[w] = "compute" => full
=============================================================================
