------------------------------ MODULE PoolAbs -------------------------------
(* What a pool of workers guarantees to the thread that hands out packages  *)
(* (C09, C10, C11): the abstract specification. It is refined by PoolImpl   *)
(* (mutexes and condition variables) and by MpiPool (several processes),    *)
(* and recorded runs of the real pool are checked against it (PoolTrace).   *)
EXTENDS Integers, FiniteSets

CONSTANTS Workers, Packages, Nobody

VARIABLES
  free,      \* workers not yet offered (again) to the assigning thread
  idle,      \* workers offered and without package
  job,       \* job[w]: package handed to w and not yet finished, or Nobody
  out,       \* packages whose results are in the shared table, not yet saved
  saved,     \* set of records saved
  todo,      \* packages not handed out
  news,      \* finished and not yet reported
  reported,  \* finished and reported
  over       \* workers stopped

vars == <<free, idle, job, out, saved, todo, news, reported, over>>

Stored == out \cup UNION saved
Busy == {w \in Workers : job[w] # Nobody}

Init == /\ free = Workers /\ idle = {} /\ job = [w \in Workers |-> Nobody]
        /\ out = {} /\ saved = {} /\ todo = Packages /\ news = {} /\ reported = {} /\ over = {}

Offer(S) == /\ S \subseteq free /\ free' = free \ S /\ idle' = idle \cup S
            /\ UNCHANGED <<job, out, saved, todo, news, reported, over>>
Assign(w, b) == /\ w \in idle /\ b \in todo /\ idle' = idle \ {w} /\ todo' = todo \ {b}
                /\ job' = [job EXCEPT ![w] = b] /\ UNCHANGED <<free, out, saved, news, reported, over>>
\* all results of the package and its name enter the shared table and record at once
Publish(w) == /\ job[w] # Nobody /\ job[w] \notin Stored /\ out' = out \cup {job[w]}
              /\ UNCHANGED <<free, idle, job, saved, todo, news, reported, over>>
Finish(w) == /\ job[w] # Nobody /\ job[w] \in Stored
             /\ job' = [job EXCEPT ![w] = Nobody] /\ free' = free \cup {w} /\ news' = news \cup {job[w]}
             /\ UNCHANGED <<idle, out, saved, todo, reported, over>>
\* several processes report and hand on their results one after another
ReportSome(S) == /\ S # {} /\ S \subseteq news /\ reported' = reported \cup S /\ news' = news \ S
                 /\ UNCHANGED <<free, idle, job, out, saved, todo, over>>
SaveSome(S) == /\ S \subseteq out /\ saved' = saved \cup {S} /\ out' = out \ S
               /\ UNCHANGED <<free, idle, job, todo, news, reported, over>>
Report == ReportSome(news)
Save == SaveSome(out)
Stop(w) == /\ job[w] = Nobody /\ w \notin over /\ over' = over \cup {w}
           /\ UNCHANGED <<free, idle, job, out, saved, todo, news, reported>>

Next == \/ \E S \in SUBSET free : S # {} /\ Offer(S)
        \/ \E w \in Workers, b \in Packages : Assign(w, b)
        \/ \E w \in Workers : Publish(w) \/ Finish(w) \/ Stop(w)
        \/ (\E S \in SUBSET news : ReportSome(S)) \/ (\E S \in SUBSET out : SaveSome(S))
Spec == Init /\ [][Next]_vars

TypeOK == /\ free \subseteq Workers /\ idle \subseteq Workers /\ todo \subseteq Packages /\ out \subseteq Packages
\* C11
EachWorkerSomewhere == \A w \in Workers : Cardinality({x \in {"free", "idle", "busy"} :
                          CASE x = "free" -> w \in free [] x = "idle" -> w \in idle [] OTHER -> job[w] # Nobody}) = 1
HandedOut == Packages \ todo
Bounded == Cardinality(HandedOut \ (news \cup reported)) <= Cardinality(Workers)
\* C09
NoSharing == Cardinality({job[w] : w \in Busy}) = Cardinality(Busy)
SavedOnce == \A r, s \in saved : r # s => r \cap s = {}
SavedApart == \A r \in saved : r \cap out = {}
Complete == Stored = (HandedOut \ {job[w] : w \in {v \in Workers : job[v] # Nobody /\ job[v] \notin Stored}})
FinishedStored == news \cup reported \subseteq Stored
Inv == TypeOK /\ EachWorkerSomewhere /\ Bounded /\ NoSharing /\ SavedOnce /\ SavedApart /\ Complete /\ FinishedStored
=============================================================================
