------------------------------ MODULE PoolTrace -----------------------------
(* Recorded runs of the real pool against PoolAbs: every event constrains   *)
(* the abstract state; steps that are not visible from outside (a result    *)
(* entering the shared table, a worker reporting back, the moment at which  *)
(* a save or a report is taken) happen silently in between. A run conforms  *)
(* if the specification has a behaviour that explains all its events.       *)
(*                                                                          *)
(* IOEnv.TRACES: one run per line:                                          *)
(*  n       workers 1..n                                                    *)
(*  cf      configurations used, one after another (index into PKGS)        *)
(*  np      packages of each of them                                        *)
(*  skip    packages of each of them that were recorded before the run      *)
(*  open    TRUE: offers and reports are observed (thread pool driven       *)
(*          directly); FALSE: they are not (complete worker pool)           *)
(*  ev      events                                                          *)
(*   config c      change to the c-th configuration begins / configured     *)
(*   assign b w    package handed out (w: worker it reached, 0 unknown)     *)
(*   arrive t b curves cf ok   worker t has computed package b, curves many,*)
(*                 with the tables of configuration ok                      *)
(*   publish t b   handing it over returned                                 *)
(*   take, taken rec lines     a save begins / its result                   *)
(*   ready m, finished bs      offers and reports (open only)               *)
(*   wait, waited  all assigned packages are waited for                     *)
(*   shutdown, down            workers stopped                              *)
EXTENDS Tally, IOUtils, Json, FiniteSetsExt

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
Configs == TLCEval(ndJsonDeserialize(IOEnv.PKGS))
Contribution == TLCEval([i \in 1..Len(Configs) |-> [j \in 1..Len(Configs[i].pkgs) |-> TLCEval(TableOf(Configs[i].pkgs[j]))]])
Expected(i, rec) == FoldLeft(LAMBDA acc, b : TSum(acc, Contribution[i][b]), Empty, rec)

Nobody == 0
CONSTANT NW                 \* workers of all runs looked at together
Workers == 1..NW
Packages == 1..(CHOOSE m \in {0} \cup UNION {{Traces[j].np[k] : k \in 1..Len(Traces[j].np)} : j \in 1..Len(Traces)} :
                  \A j \in 1..Len(Traces) : \A k \in 1..Len(Traces[j].np) : Traces[j].np[k] <= m)
ASSUME \A j \in 1..Len(Traces) : Traces[j].n = NW

VARIABLES
  tr, i,                                                      \* run, next event
  free, idle, job, out, saved, todo, news, reported, over,    \* as in PoolAbs
  conf,      \* number of the configuration in use, 0 before the first
  arrived, done,   \* packages computed; packages handed over
  pend       \* what a save in progress has taken, or {-1}

avars == <<free, idle, job, out, saved, todo, news, reported, over>>
vars == <<tr, i, avars, conf, arrived, done, pend>>

T == Traces[tr]
Ev == T.ev[i]
NoSet == {-1}
Abs == INSTANCE PoolAbs

Init == /\ tr \in 1..Len(Traces) /\ i = 1 /\ Abs!Init
        /\ conf = 0 /\ arrived = {} /\ done = {} /\ pend = NoSet

More == i <= Len(T.ev)
Is(e) == More /\ Ev.e = e
Step == i' = i + 1 /\ UNCHANGED tr
Silent == UNCHANGED <<tr, i>>
Between(a) == \* the last event of this kind is the beginning a
   More /\ \E j \in 1..(i-1) : T.ev[j].e = a /\ \A k \in (j+1)..(i-1) : T.ev[k].e \notin {"taken", "take"}

\* the complete pool hands a package out some time after it was asked to
Needed == /\ ~T.open /\ More /\ Ev.e \in {"arrive", "assigned"} /\ conf > 0 /\ Ev.b \in todo
          /\ \E j \in 1..(i-1) : T.ev[j].e = "assign" /\ T.ev[j].b = Ev.b
(* silent steps. They are taken as late as the events allow: only a save    *)
(* sees whether a package is in the shared table, only offers, reports and  *)
(* waiting see whether a worker has reported back.                          *)
(* Steps that commute are taken in one order only: what a save will show is *)
(* known from its result, and at the end of waiting all must be finished.   *)
SavedNext == \* the packages in the result of the save in progress
   LET j == CHOOSE j \in i..Len(T.ev) : T.ev[j].e = "taken" /\ \A k \in i..(j-1) : T.ev[k].e # "taken"
   IN  RecordOf(T.ev[j].rec)
Taking(w) == /\ Between("take") /\ pend = NoSet /\ \E j \in i..Len(T.ev) : T.ev[j].e = "taken"
             /\ LET ready == {v \in Workers : job[v] \in arrived /\ job[v] \in SavedNext /\ job[v] \notin Abs!Stored}
                IN  w \in ready /\ \A v \in ready : w <= v
Publish(w) == /\ job[w] \in arrived /\ IF Is("publish") /\ Ev.b = job[w] THEN TRUE ELSE Taking(w)
              /\ Abs!Publish(w) /\ Silent /\ UNCHANGED <<conf, arrived, done, pend>>
Finish(w) == /\ job[w] \in done
             /\ \/ Is("ready") \/ Is("finished")
                \/ (Is("waited") \/ Is("configured") \/ Is("down")) /\ \A v \in Workers : job[v] \in done => w <= v
                \/ (Needed /\ Ev.w \in {0, w})
             /\ Abs!Finish(w) /\ Silent /\ UNCHANGED <<conf, arrived, done, pend>>
SaveTaken == /\ Between("take") /\ pend = NoSet /\ Abs!Save /\ pend' = out /\ Silent /\ UNCHANGED <<conf, arrived, done>>
Unseen == Silent /\ UNCHANGED <<conf, arrived, done, pend>>
OfferUnseen == Needed /\ Unseen /\ free # {} /\ Abs!Offer(free)
Skip == IF conf = 0 THEN {} ELSE RecordOf(T.skip[conf])
AssignUnseen == Needed /\ Unseen /\ Ev.b <= T.np[conf] /\ Ev.b \notin Skip /\ \E w \in Workers : Ev.w \in {0, w} /\ Abs!Assign(w, Ev.b)

(* events *)
Config == /\ Is("config") /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
\* nothing of the previous configuration may be left when the next one is in force
Configured == /\ Is("configured")
              /\ \A w \in Workers : job[w] = Nobody
              /\ out = {} /\ pend = NoSet
              /\ conf' = conf + 1 /\ todo' = Packages /\ saved' = {} /\ news' = {} /\ reported' = {}
              /\ arrived' = {} /\ done' = {}
              /\ Step /\ UNCHANGED <<free, idle, job, out, over, pend>>
Assign == /\ Is("assign") /\ T.open /\ conf > 0 /\ Ev.b <= T.np[conf] /\ \E w \in Workers : (Ev.w = 0 \/ w = Ev.w) /\ Abs!Assign(w, Ev.b)
          /\ Step /\ UNCHANGED <<conf, arrived, done, pend>>
Arrive == /\ Is("arrive") /\ Ev.b # Nobody /\ Ev.t \in Workers /\ job[Ev.t] = Ev.b /\ Ev.b \notin arrived
          /\ Ev.ok = T.cf[conf]
          /\ arrived' = arrived \cup {Ev.b}
          /\ Step /\ UNCHANGED <<avars, conf, done, pend>>
Published == /\ Is("publish") /\ Ev.b \in Abs!Stored /\ Ev.b \in arrived /\ done' = done \cup {Ev.b}
             /\ Step /\ UNCHANGED <<avars, conf, arrived, pend>>
Take == /\ Is("take") /\ pend = NoSet /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
\* the pair is exactly what was in the shared table, and the table belongs to the record
Taken == /\ Is("taken") /\ pend # NoSet
         /\ RecordOf(Ev.rec) = pend /\ Cardinality(pend) = Len(Ev.rec)
         /\ IsText(Ev.lines, IF conf = 0 THEN Empty ELSE Expected(T.cf[conf], Ev.rec))
         /\ pend' = NoSet /\ Step /\ UNCHANGED <<avars, conf, arrived, done>>
Ready == /\ Is("ready") /\ \E S \in (IF Ev.n = Cardinality(free) THEN {free} ELSE IF Ev.n \in 0..Cardinality(free) THEN kSubset(Ev.n, free) ELSE {}) : Abs!Offer(S)
         /\ Step /\ UNCHANGED <<conf, arrived, done, pend>>
Finished == /\ Is("finished") /\ RecordOf(Ev.bs) = news /\ Len(Ev.bs) = Cardinality(news) /\ Abs!Report
            /\ Step /\ UNCHANGED <<conf, arrived, done, pend>>
\* waiting ends when everything handed out is finished
Wait == /\ Is("wait") /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
Waited == /\ Is("waited") /\ \A w \in Workers : job[w] = Nobody
          /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
Shutdown == /\ Is("shutdown") /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
\* every worker has stopped, nothing is left
Down == /\ Is("down") /\ \A w \in Workers : job[w] = Nobody
        /\ ~T.open => out = {} /\ pend = NoSet
        /\ over' = Workers
        /\ Step /\ UNCHANGED <<free, idle, job, out, saved, todo, news, reported, conf, arrived, done, pend>>
Asked == Is("assign") /\ ~T.open /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
Assigned == Is("assigned") /\ Ev.b \in ((Packages \ todo) \cup Skip) /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>
Other == More /\ Ev.e \in {"sparked", "savenow", "end", "exit"} /\ Step /\ UNCHANGED <<avars, conf, arrived, done, pend>>

Next == \/ \E w \in Workers : Publish(w) \/ Finish(w)
        \/ SaveTaken \/ OfferUnseen \/ AssignUnseen
        \/ Config \/ Configured \/ Assign \/ Arrive \/ Published \/ Take \/ Taken \/ Ready \/ Finished
        \/ Wait \/ Waited \/ Shutdown \/ Down \/ Asked \/ Assigned \/ Other
Spec == Init /\ [][Next]_vars

\* runs explained completely are listed; with TRACE_AT every state is
Accepted == /\ i = Len(T.ev) + 1 => PrintT(<<"ACCEPTED", tr>>)
            /\ IOEnv.TRACE_AT = "1" => PrintT(<<"AT", i>>)
AbsInv == Abs!Inv
=============================================================================
