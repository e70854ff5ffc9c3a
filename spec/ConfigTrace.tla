----------------------------- MODULE ConfigTrace ----------------------------
(* Recorded readings of configurations. Row kinds:                          *)
(*   read  w: moduli as written; readable, nodes: what the reader made of   *)
(*         them (accepted, fields, copies through YAML and messages)        *)
(*   run   a run of the program: d, status, and per modulus what was found  *)
(*         under its path (summary of the merged results)                   *)
EXTENDS Config, Rows, BigNat, SequencesExt, FiniteSets

Range_(s) == {s[i] : i \in 1..Len(s)}

ReadOK(r) ==
  LET unread == \E i \in 1..Len(r.w) : Missing(r.w[i])
  IN  \* a zero field may be refused at once or when the modulus is verified
      /\ unread => \/ ~r.readable
                   \/ \E i \in 1..Len(r.nodes) : ~r.nodes[i].accepted
      /\ (\A i \in 1..Len(r.w) : ~Refused(r.w[i])) =>
           /\ r.readable /\ Len(r.nodes) = Len(r.w)
           /\ \A i \in 1..Len(r.w) :
                LET n == r.nodes[i]
                IN  n.accepted /\ n.read = Read(r.w[i]) /\ \A c \in Range_(n.copies) : c = Read(r.w[i])
      /\ (r.readable /\ Len(r.nodes) = Len(r.w)) =>
           \A i \in 1..Len(r.w) : Refused(r.w[i]) => ~r.nodes[i].accepted

RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN 1 ELSE a * PowI(a, n-1)
\* number of square-free polynomials of the admissible degrees
Total(c) ==
  LET q == PowI(c[1], c[2])
      ds == IF c[4] = 1 THEN {2*c[3] + 1} ELSE {2*c[3] + 1, 2*c[3] + 2}
  IN  BSum(SetToSeq({BMul(BMul(BPow(q, d - 1), q - 1), q - 1) : d \in ds}))

\* found: [files, total (BigNat), offsets (set of numbers of offsets), degrees (set of sums of ramification), largest]
FoundOK(c, f) ==
  /\ f.files
  /\ f.total = Total(c)
  /\ Range_(f.offsets) = {c[5]}
  /\ Range_(f.degrees) = {2*c[3] + 2}
  /\ f.largest <= c[7]
RunOK(r) ==
  /\ DocAccepted(r.d) <=> r.status = 0
  /\ \A i \in 1..Len(r.d.moduli) :
       IF Refused(r.d.moduli[i]) \/ ~StoreTypeOK(r.d) THEN ~r.found[i].files
       ELSE DocAccepted(r.d) => FoundOK(Read(r.d.moduli[i]), r.found[i])

RecordOK == row > 0 =>
  LET r == Log[row] IN IF r.kind = "read" THEN ReadOK(r) ELSE RunOK(r)
=============================================================================
