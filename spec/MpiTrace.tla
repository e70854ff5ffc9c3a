------------------------------ MODULE MpiTrace ------------------------------
(* The messages of a distributed run (ranks scheduled in one process),      *)
(* against what MpiPool guarantees about them:                              *)
(*  Credit      a package goes to a process with an idle thread only        *)
(*  OneProcess  a package goes to one process, and only if not recorded     *)
(*  reports     a process reports what it was given, once                   *)
(*  PathsOK     the next modulus is announced when all packages of the last *)
(*              are reported and all results handed over, and before any    *)
(*              package of it                                               *)
(*  EndState    in the end everything is reported and handed over, once,    *)
(*              with tables that belong to the records                      *)
(*  Idle        the master does not keep sleeping while it knows of an idle  *)
(*              thread and there are packages it hands out later            *)
(* Rows: kind ("all", or "pool": without the  *)
(* results and announcements); procs; cf: configurations (index into PKGS); skip: recorded before *)
(* the run; seen: kinds of messages that occur (a guarantee about messages  *)
(* is looked at when these are how it is kept); msgs: in the order sent     *)
(*   k = "sleep"  (main thread of the master process)                       *)
(*   k = "block"  to, b        "blocks" from, bs     "ready" from, n        *)
(*       "config" to           "results" from, rec, lines                   *)
EXTENDS Tally, Rows

Configs == TLCEval(ndJsonDeserialize(IOEnv.PKGS))
Contribution == TLCEval([i \in 1..Len(Configs) |-> [j \in 1..Len(Configs[i].pkgs) |-> TLCEval(TableOf(Configs[i].pkgs[j]))]])
Expected(i, rec) == FoldLeft(LAMBDA acc, b : TSum(acc, Contribution[i][b]), Empty, rec)

Start(r) == [conf |-> [p \in 1..r.procs |-> 0], credit |-> [p \in 1..r.procs |-> 0],
             out |-> [p \in 1..r.procs |-> {}],     \* handed to p, not reported
             unsaved |-> [p \in 1..r.procs |-> {}], \* handed to p, results not handed over
             handed |-> {},
             naps |-> 0,                            \* of the master, one after another, while it knew of an idle thread
             lazy |-> FALSE,                        \* three of them: there had better be no package left
             idle |-> TRUE,                         \* guarantee Idle so far
             bad |-> 0, n |-> 0]
Quiet(r, s) == \A p \in 1..r.procs : ("blocks" \in RecordOf(r.seen) => s.out[p] = {}) /\ ("results" \in RecordOf(r.seen) => s.unsaved[p] = {})
Current(s) == s.conf[1]

Message(r, s, m) ==
  LET seen == RecordOf(r.seen) IN
  CASE m.k = "config" ->
         LET first == \A p \in 1..r.procs : s.conf[p] = s.conf[m.to]
             c == s.conf[m.to] + 1
         IN  [ok |-> c <= Len(r.cf) /\ Quiet(r, s) /\ \A p \in 1..r.procs : s.conf[p] \in {c - 1, c},
              s |-> [s EXCEPT !.naps = 0, !.lazy = FALSE, !.conf[m.to] = c, !.handed = IF first THEN {} ELSE @,
                              !.out[m.to] = {}, !.unsaved[m.to] = {}]]
    [] m.k = "sleep" -> LET n == IF \E p \in 1..r.procs : s.credit[p] > 0 THEN s.naps + 1 ELSE 0 IN
         [ok |-> TRUE, s |-> [s EXCEPT !.naps = n, !.lazy = @ \/ n > 2]]
    [] m.k = "block" ->
         [ok |-> /\ s.conf[m.to] > 0 /\ \A p \in 1..r.procs : s.conf[p] = s.conf[m.to]
                 /\ m.b > 0 /\ m.b \notin s.handed /\ m.b \notin RecordOf(r.skip[s.conf[m.to]])
                 /\ "ready" \in seen => s.credit[m.to] > 0,
          s |-> [s EXCEPT !.naps = 0, !.idle = @ /\ ~s.lazy, !.credit[m.to] = IF @ > 0 THEN @ - 1 ELSE 0, !.out[m.to] = @ \cup {m.b}, !.unsaved[m.to] = @ \cup {m.b}, !.handed = @ \cup {m.b}]]
    [] m.k = "blocks" ->
         [ok |-> RecordOf(m.bs) \subseteq s.out[m.from] /\ Cardinality(RecordOf(m.bs)) = Len(m.bs),
          s |-> [s EXCEPT !.out[m.from] = @ \ RecordOf(m.bs)]]
    [] m.k = "ready" -> [ok |-> s.credit[m.from] + m.n <= r.threads, s |-> [s EXCEPT !.credit[m.from] = @ + m.n]]
    [] m.k = "results" ->
         [ok |-> /\ RecordOf(m.rec) \subseteq s.unsaved[m.from] /\ Cardinality(RecordOf(m.rec)) = Len(m.rec)
                 /\ s.conf[m.from] > 0 \/ m.rec = <<>>
                 /\ IF s.conf[m.from] > 0 THEN IsText(m.lines, Expected(r.cf[s.conf[m.from]], m.rec)) ELSE m.lines = <<>>,
          s |-> [s EXCEPT !.unsaved[m.from] = @ \ RecordOf(m.rec)]]
    [] OTHER -> [ok |-> TRUE, s |-> s]

Step(r, s, m) == IF s.bad # 0 THEN s
                 ELSE LET x == Message(r, s, m) IN IF (x.ok \/ (r.kind = "pool" /\ m.k \in {"config", "results"})) /\ x.s.idle THEN [x.s EXCEPT !.n = @ + 1] ELSE [s EXCEPT !.bad = s.n + 1]
Replayed(r) == FoldLeft(LAMBDA s, m : Step(r, s, m), Start(r), r.msgs)
RowOK(r) == LET s == Replayed(r) IN
            /\ IF s.bad # 0 THEN PrintT(<<"BAD", s.bad, r.msgs[s.bad], s>>) /\ FALSE ELSE TRUE
            /\ r.whole /\ r.kind = "all" => Quiet(r, s) /\ \A p \in 1..r.procs : s.conf[p] = Len(r.cf)
RecordOK == row < 1 \/ RowOK(Log[row])
=============================================================================
