---------------------------- MODULE ResultsTrace ----------------------------
(* Result directories left behind by the real programs, against the         *)
(* contributions of the packages of an enumeration.                         *)
(*                                                                          *)
(* IOEnv.PKGS: one row per configuration: pkgs[i] the lines package i       *)
(* contributes.                                                             *)
(* Rows: cf     configuration (index into PKGS)                             *)
(*       files  completed results: rec (ids of packages, 0 for a package    *)
(*              that is none of the enumeration), lines                     *)
(*       whole  all packages must be recorded                               *)
(*       before, after  names and digests of all files, before and after a  *)
(*              run: what was there must still be there, unchanged          *)
(*       merged what the merger made of the directory, if it was asked      *)
EXTENDS Tally, Rows

Configs == TLCEval(ndJsonDeserialize(IOEnv.PKGS))
Contribution == TLCEval([i \in 1..Len(Configs) |-> [j \in 1..Len(Configs[i].pkgs) |-> TLCEval(TableOf(Configs[i].pkgs[j]))]])
Ids(i) == 1..Len(Configs[i].pkgs)

\* the sum of the contributions of the packages in rec
Expected(i, rec) == FoldLeft(LAMBDA acc, b : TSum(acc, Contribution[i][b]), Empty, rec)

PairOK(i, f) == /\ \A j \in 1..Len(f.rec) : f.rec[j] \in Ids(i)          \* nothing that was not handed out
                /\ IsRecord(f.rec, RecordOf(f.rec))                      \* each package once
                /\ IsText(f.lines, Expected(i, f.rec))                   \* the table belongs to the record
Recorded(fs) == UNION {RecordOf(fs[a].rec) : a \in 1..Len(fs)}
\* no package in two records: nothing is lost when they are joined
Apart(fs) == FoldLeft(LAMBDA acc, f : acc + Cardinality(RecordOf(f.rec)), 0, fs) = Cardinality(Recorded(fs))
All(fs) == FoldLeft(LAMBDA acc, f : acc \o f.rec, <<>>, fs)

MergedOK(i, fs, m) == /\ RecordOf(m.rec) = Recorded(fs) /\ Cardinality(RecordOf(m.rec)) = Len(m.rec)
                      /\ IsText(m.lines, Expected(i, SetToSeq(Recorded(fs))))

RowOK(r) == /\ \A a \in 1..Len(r.files) : PairOK(r.cf, r.files[a])
            /\ Apart(r.files)
            /\ r.whole => Recorded(r.files) = Ids(r.cf)
            /\ "before" \in DOMAIN r => RecordOf(r.before) \subseteq RecordOf(r.after)
            /\ "merged" \in DOMAIN r => MergedOK(r.cf, r.files, r.merged)
RecordOK == row < 1 \/ RowOK(Log[row])
=============================================================================
