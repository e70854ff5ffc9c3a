------------------------------- MODULE Results ------------------------------
(* A result directory over the lives of several runs (C12, C13): packages   *)
(* are computed, collected in memory, and saved as a pair of a table and a  *)
(* record. A run may be killed at any point, any write may fail half way,   *)
(* the directory may be merged between runs.                                *)
(*                                                                          *)
(* The saving protocol of the implementation is: table first, then the      *)
(* record under a temporary name, then rename; a failing step ends the      *)
(* save. The switches turn on what the implementation must not do:          *)
(*  RecordFirst     the record is written before the table                  *)
(*  InPlace         the record is written under its final name              *)
(*  IgnoreFailure   a failing table does not end the save                   *)
(*  Forgetful       a run does not look at the records present              *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Packages, MaxRuns, MaxPairs, RecordFirst, InPlace, IgnoreFailure, Forgetful

VARIABLES
  disk,      \* sequence of pairs [tab, whole, rec, vis]: content of the table, whether it is complete,
             \* packages readable from the record, whether the record is visible
  runs,      \* runs started
  on,        \* a run is going on
  known,     \* packages recorded when the run started
  done,      \* packages computed by this run
  mem,       \* packages in memory, not yet saved
  step, cur, \* saving: next step, packages saved
  broken,    \* some write of this run has failed
  clean      \* the last run came to its end undisturbed

vars == <<disk, runs, on, known, done, mem, step, cur, broken, clean>>

Recs == UNION {disk[i].rec : i \in {j \in 1..Len(disk) : disk[j].vis}}
Top == Len(disk)

Init == /\ disk = <<>> /\ runs = 0 /\ on = FALSE /\ known = {} /\ done = {} /\ mem = {}
        /\ step = "no" /\ cur = {} /\ broken = FALSE /\ clean = FALSE

Start == /\ ~on /\ runs < MaxRuns /\ runs' = runs + 1 /\ on' = TRUE /\ known' = (IF Forgetful THEN {} ELSE Recs)
         /\ done' = {} /\ mem' = {} /\ step' = "no" /\ cur' = {} /\ broken' = FALSE /\ clean' = FALSE /\ UNCHANGED disk
Compute(b) == /\ on /\ b \notin known \cup done /\ done' = done \cup {b} /\ mem' = mem \cup {b}
              /\ UNCHANGED <<disk, runs, on, known, step, cur, broken, clean>>

First == IF RecordFirst THEN "record" ELSE "table"
Begin == /\ on /\ step = "no" /\ Len(disk) < MaxPairs /\ cur' = mem /\ mem' = {} /\ step' = First
         /\ disk' = Append(disk, [tab |-> {}, whole |-> FALSE, rec |-> {}, vis |-> FALSE])
         /\ UNCHANGED <<runs, on, known, done, broken, clean>>
\* what follows a step that succeeded
After(s) == CASE s = "table" -> IF RecordFirst THEN "no" ELSE "record"
              [] s = "record" -> IF InPlace THEN (IF RecordFirst THEN "table" ELSE "no") ELSE "rename"
              [] s = "rename" -> IF RecordFirst THEN "table" ELSE "no"
Full(s) == [disk EXCEPT ![Top] = CASE s = "table" -> [@ EXCEPT !.tab = cur, !.whole = TRUE]
                                   [] s = "record" -> [@ EXCEPT !.rec = cur, !.vis = InPlace]
                                   [] s = "rename" -> [@ EXCEPT !.vis = TRUE]]
\* what a write that is cut short leaves behind (renaming is atomic)
Part(s) == CASE s = "table" -> {disk, [disk EXCEPT ![Top].tab = cur]}
             [] s = "record" -> {[disk EXCEPT ![Top].rec = r, ![Top].vis = InPlace] : r \in SUBSET cur}
             [] s = "rename" -> {disk}
Write == /\ on /\ step # "no" /\ disk' = Full(step) /\ step' = After(step)
         /\ UNCHANGED <<runs, on, known, done, mem, cur, broken, clean>>
Fail == /\ on /\ step # "no" /\ disk' \in Part(step) /\ broken' = TRUE
        /\ step' = (IF IgnoreFailure THEN After(step) ELSE "no")
        /\ UNCHANGED <<runs, on, known, done, mem, cur, clean>>
Kill == /\ on /\ on' = FALSE /\ step' = "no" /\ cur' = {} /\ mem' = {}
        /\ disk' \in {disk} \cup (IF step = "no" THEN {} ELSE Part(step))
        /\ UNCHANGED <<runs, known, done, broken, clean>>
End == /\ on /\ step = "no" /\ mem = {} /\ known \cup done = Packages /\ on' = FALSE /\ clean' = ~broken
       /\ UNCHANGED <<disk, runs, known, done, mem, step, cur, broken>>
\* merging everything recorded to one pair and removing the others
Visible == {j \in 1..Len(disk) : disk[j].vis}
Merge == /\ ~on /\ Cardinality(Visible) > 1
         /\ disk' = <<[tab |-> UNION {disk[j].tab : j \in Visible}, whole |-> \A j \in Visible : disk[j].whole, rec |-> Recs, vis |-> TRUE]>>
         /\ UNCHANGED <<runs, on, known, done, mem, step, cur, broken, clean>>

Next == Start \/ (\E b \in Packages : Compute(b)) \/ Begin \/ Write \/ Fail \/ Kill \/ End \/ Merge
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C12: a visible record has its table, complete and with nothing else
PairsOK == \A j \in 1..Len(disk) : disk[j].vis => disk[j].whole /\ disk[j].tab = disk[j].rec
\* C13: nothing is recorded twice
Apart == \A i, j \in 1..Len(disk) : i # j /\ disk[i].vis /\ disk[j].vis => disk[i].rec \cap disk[j].rec = {}
\* an undisturbed run completes the results, whatever happened before
Complete == clean => Recs = Packages
\* recorded results are never lost
Kept == [][Recs \subseteq Recs']_vars
\* the merged table: each package as often as it occurs
Merged == [b \in Packages |-> Cardinality({j \in Visible : disk[j].whole /\ b \in disk[j].tab})]
Census == clean => Merged = [b \in Packages |-> 1]
=============================================================================
