------------------------------- MODULE Config -------------------------------
(* Configurations (C18). A modulus as written is a record of the fields     *)
(* present; None (Absent for the path and the store type) stands for a      *)
(* field that is not written. Reading gives a complete configuration or a refusal.                                     *)
EXTENDS Integers, Sequences, TLC

None == -1
Absent == "none"
Mandatory == {"Prime", "PrimeExponent", "Genus", "ResultPath", "PackageSize"}
Numeric == {"Prime", "PrimeExponent", "Genus", "PackageSize", "CountExponent"}

Missing(w) == \/ w["ResultPath"] = Absent
              \/ \E f \in Mandatory \ {"ResultPath"} : w[f] = None
Refused(w) == \/ Missing(w)
              \/ \E f \in Numeric : w[f] # None /\ w[f] = 0

\* order of the fields as in the driver
Read(w) == << w["Prime"], w["PrimeExponent"], w["Genus"],
              IF w["WithMarkedPoint"] = None THEN 0 ELSE w["WithMarkedPoint"],
              IF w["CountExponent"] = None THEN w["Genus"] ELSE w["CountExponent"],
              w["ResultPath"], w["PackageSize"] >>

\* a document: store type and moduli in order; processing stops at the first refused modulus
StoreTypeOK(d) == d.store \in {Absent, "EC"}
DocAccepted(d) == StoreTypeOK(d) /\ \A i \in 1..Len(d.moduli) : ~Refused(d.moduli[i])

\* documents with a single modulus, all combinations of value classes
V(S) == {None} \cup S
Documents ==
  [Prime : {None, 0, 3, 101}, PrimeExponent : {None, 0, 1, 2}, Genus : {None, 0, 1, 7},
   WithMarkedPoint : {None, 0, 1}, CountExponent : {None, 0, 1, 5},
   ResultPath : {Absent, "some_path"}, PackageSize : {None, 0, 1, 2500}]
=============================================================================
