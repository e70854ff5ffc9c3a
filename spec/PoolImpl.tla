------------------------------ MODULE PoolImpl ------------------------------
(* The thread pool with its mutexes and condition variables: the assigning  *)
(* thread (class StandaloneWorkerPool), ThreadPool and Thread. One action   *)
(* per access between two points where another thread can interfere.        *)
(*                                                                          *)
(* OldWait = TRUE is the loop the repository once had (testing under one    *)
(* mutex and waiting with another): TLC finds the lost wake-up, see C10.    *)
(* OldFlush = TRUE publishes record and table in two critical sections.     *)
(* NoWait = TRUE changes to the next modulus without waiting for the        *)
(* packages of the last one.                                                *)
(* The first Split packages belong to modulus 1, the others to modulus 2.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers, NPackages, Nobody, OldWait, OldFlush, NoWait, Saves, Split

Packages == 1..NPackages
ModOf(b) == IF b <= Split THEN 1 ELSE 2

VARIABLES
  mpc, mw,         \* program counter of the assigning thread, worker it deals with
  next,            \* next package to assign
  left,            \* saves still allowed in the middle of the run
  wpc, cur,        \* program counters of the workers, package each works on
  queue, stopping, \* data of class Thread
  dmutex,          \* holder of each data mutex
  asleep,          \* workers in the wait set of their condition variable
  pmutex,          \* holder of the mutex of the pool
  ready, idle, busy, fin,  \* data of class ThreadPool; busy: function package -> worker
  smutex, rec, tab,        \* shared record and table with their mutex
  files,           \* saved pairs
  assigned, nidle, \* data of StandaloneWorkerPool
  reps,            \* packages reported
  modulus, tables  \* modulus whose files are written; modulus of the tables each worker hands on

vars == <<mpc, mw, next, left, wpc, cur, queue, stopping, dmutex, asleep, pmutex, ready, idle, busy, fin,
          smutex, rec, tab, files, assigned, nidle, reps, modulus, tables>>
mvars == <<mpc, mw, next, left>>
wvars == <<wpc, cur, asleep>>
tvars == <<queue, stopping, dmutex>>
pvars == <<pmutex, ready, idle, busy, fin>>
svars == <<smutex, rec, tab, files>>
avars == <<assigned, nidle, reps, modulus, tables>>

Master == "master"
None == "none"

Init ==
  /\ mpc = "loop" /\ mw = Nobody /\ next = 1 /\ left = Saves
  /\ wpc = [w \in Workers |-> "top"] /\ cur = [w \in Workers |-> Nobody]
  /\ queue = [w \in Workers |-> <<>>] /\ stopping = [w \in Workers |-> FALSE] /\ dmutex = [w \in Workers |-> None]
  /\ asleep = {}
  /\ pmutex = None /\ ready = Workers /\ idle = <<>> /\ busy = [b \in {} |-> Nobody] /\ fin = {}
  /\ smutex = None /\ rec = {} /\ tab = {} /\ files = {}
  /\ assigned = {} /\ nidle = 0 /\ reps = {}
  /\ modulus = 0 /\ tables = [w \in Workers |-> 0]

-----------------------------------------------------------------------------
(* the assigning thread *)
Goto(l) == mpc' = l
SaveNow(from, to) ==   \* flush_global_store and writing the files
  /\ mpc = from /\ smutex = None
  /\ files' = (IF modulus = 0 THEN files ELSE files \cup {<<modulus, rec, tab>>}) /\ rec' = {} /\ tab' = {} /\ Goto(to)
  /\ UNCHANGED <<mw, next, wvars, tvars, pvars, smutex, avars>>
MLoop == /\ mpc = "loop"
         /\ Goto(IF next > NPackages THEN "wait" ELSE IF ModOf(next) # modulus THEN (IF NoWait THEN "csave" ELSE "cwait") ELSE "fill")
         /\ UNCHANGED <<mw, next, left, wvars, tvars, pvars, svars, avars>>
\* update_config: wait, save, take the next modulus
MCWait == /\ mpc = "cwait" /\ pmutex = None /\ fin' = {} /\ reps' = reps \cup fin /\ assigned' = assigned \ fin
          /\ Goto(IF assigned' = {} THEN "csave" ELSE "cwait")
          /\ UNCHANGED <<mw, next, left, wvars, tvars, pmutex, ready, idle, busy, svars, nidle, modulus, tables>>
MCSave == SaveNow("csave", "config") /\ UNCHANGED left
MConfig == /\ mpc = "config" /\ modulus' = ModOf(next) /\ tables' = [w \in Workers |-> modulus'] /\ Goto("loop")
           /\ UNCHANGED <<mw, next, left, wvars, tvars, pvars, svars, assigned, nidle, reps>>
MSave == SaveNow("loop", "loop") /\ modulus # 0 /\ left > 0 /\ left' = left - 1
\* fill_idle_queues: flush_finished_blocks, flush_ready_threads
MFill == /\ mpc = "fill" /\ pmutex = None /\ fin' = {} /\ reps' = reps \cup fin
         /\ Assert(fin \subseteq assigned, "finished package was not assigned")
         /\ assigned' = assigned \ fin /\ Goto("ready")
         /\ UNCHANGED <<mw, next, left, wvars, tvars, pmutex, ready, idle, busy, svars, nidle, modulus, tables>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
MReady == /\ mpc = "ready" /\ pmutex = None
          /\ idle' = idle \o SeqOf(ready) /\ nidle' = nidle + Cardinality(ready) /\ ready' = {}
          /\ Goto(IF nidle' = 0 THEN "fill" ELSE "assign")
          /\ UNCHANGED <<mw, next, left, wvars, tvars, pmutex, busy, fin, svars, assigned, reps, modulus, tables>>
\* ThreadPool::assign holds the pool's mutex over Thread::assign
MAssign == /\ mpc = "assign" /\ pmutex = None /\ pmutex' = Master /\ nidle' = nidle - 1
           /\ Assert(idle # <<>>, "no idle worker")
           /\ mw' = idle[Len(idle)] /\ idle' = SubSeq(idle, 1, Len(idle) - 1)
           /\ busy' = (next :> mw') @@ busy /\ Goto("tlock")
           /\ UNCHANGED <<next, left, wvars, tvars, ready, fin, svars, assigned, reps, modulus, tables>>
MTLock == /\ mpc = "tlock" /\ dmutex[mw] = None /\ dmutex' = [dmutex EXCEPT ![mw] = Master]
          /\ queue' = [queue EXCEPT ![mw] = Append(@, <<next, tables[mw]>>)] /\ Goto("tunlock")
          /\ UNCHANGED <<mw, next, left, wvars, stopping, pvars, svars, avars>>
MTUnlock == /\ mpc = "tunlock" /\ dmutex' = [dmutex EXCEPT ![mw] = None] /\ Goto("tnotify")
            /\ UNCHANGED <<mw, next, left, wvars, queue, stopping, pvars, svars, avars>>
MNotify == /\ mpc = "tnotify" /\ asleep' = asleep \ {mw} /\ pmutex' = None
           /\ assigned' = assigned \cup {next} /\ next' = next + 1 /\ Goto("loop")
           /\ UNCHANGED <<mw, left, wpc, cur, tvars, ready, idle, busy, fin, svars, nidle, reps, modulus, tables>>
\* destructor: wait for the assigned packages, save, shut down
MWait == /\ mpc = "wait" /\ pmutex = None /\ fin' = {} /\ reps' = reps \cup fin /\ assigned' = assigned \ fin
         /\ Goto(IF assigned' = {} THEN "lastsave" ELSE "wait")
         /\ UNCHANGED <<mw, next, left, wvars, tvars, pmutex, ready, idle, busy, svars, nidle, modulus, tables>>
MLast == SaveNow("lastsave", "down") /\ UNCHANGED left
MDown == /\ mpc = "down" /\ \E w \in Workers : ~stopping[w]
         /\ LET w == CHOOSE w \in Workers : ~stopping[w]
            IN  /\ dmutex[w] = None /\ stopping' = [stopping EXCEPT ![w] = TRUE] /\ mw' = w
         /\ Goto("dnotify") /\ UNCHANGED <<next, left, wvars, queue, dmutex, pvars, svars, avars>>
MDNotify == /\ mpc = "dnotify" /\ asleep' = asleep \ {mw} /\ Goto("join")
            /\ UNCHANGED <<mw, next, left, wpc, cur, tvars, pvars, svars, avars>>
MJoin == /\ mpc = "join" /\ wpc[mw] = "end" /\ Goto(IF \A w \in Workers : stopping[w] THEN "end" ELSE "down")
         /\ UNCHANGED <<mw, next, left, wvars, tvars, pvars, svars, avars>>
MNext == MLoop \/ MSave \/ MCWait \/ MCSave \/ MConfig \/ MFill \/ MReady \/ MAssign \/ MTLock \/ MTUnlock \/ MNotify \/ MWait \/ MLast \/ MDown \/ MDNotify \/ MJoin

-----------------------------------------------------------------------------
(* worker w *)
To(w, l) == wpc' = [wpc EXCEPT ![w] = l]
WTop(w) == /\ wpc[w] = "top" /\ dmutex[w] = None /\ dmutex' = [dmutex EXCEPT ![w] = w] /\ To(w, "test")
           /\ UNCHANGED <<mvars, cur, asleep, queue, stopping, pvars, svars, avars>>
WTest(w) ==
  /\ wpc[w] = "test" /\ dmutex[w] = w
  /\ IF stopping[w] THEN To(w, "end") /\ dmutex' = [dmutex EXCEPT ![w] = None] /\ UNCHANGED <<cur, queue, asleep>>
     ELSE IF queue[w] = <<>>
     THEN /\ dmutex' = [dmutex EXCEPT ![w] = None] /\ UNCHANGED <<cur, queue>>
          /\ IF OldWait THEN To(w, "sleep") /\ UNCHANGED asleep       \* between test and sleep the mutex is free
                        ELSE To(w, "asleep") /\ asleep' = asleep \cup {w}
     ELSE /\ cur' = [cur EXCEPT ![w] = Head(queue[w])] /\ queue' = [queue EXCEPT ![w] = Tail(@)]
          /\ dmutex' = [dmutex EXCEPT ![w] = None] /\ To(w, "work") /\ UNCHANGED asleep
  /\ UNCHANGED <<mvars, stopping, pvars, svars, avars>>
WSleep(w) == /\ wpc[w] = "sleep" /\ To(w, "asleep") /\ asleep' = asleep \cup {w}
             /\ UNCHANGED <<mvars, cur, tvars, pvars, svars, avars>>
\* woken (a spurious wake-up is allowed at any time but never relied upon)
WWake(w) == /\ wpc[w] = "asleep" /\ w \notin asleep /\ To(w, "top")
            /\ UNCHANGED <<mvars, cur, asleep, tvars, pvars, svars, avars>>
WSpurious(w) == /\ wpc[w] = "asleep" /\ w \in asleep /\ asleep' = asleep \ {w}
                /\ UNCHANGED <<mvars, wpc, cur, tvars, pvars, svars, avars>>
\* flush_to_static_store
WPublish(w) == /\ wpc[w] = "work" /\ smutex = None /\ rec' = rec \cup {cur[w][1]}
               /\ IF OldFlush THEN UNCHANGED tab /\ To(w, "half") ELSE tab' = tab \cup {cur[w]} /\ To(w, "fin")
               /\ UNCHANGED <<mvars, cur, asleep, tvars, pvars, smutex, files, avars>>
WHalf(w) == /\ wpc[w] = "half" /\ smutex = None /\ tab' = tab \cup {cur[w]} /\ To(w, "fin")
            /\ UNCHANGED <<mvars, cur, asleep, tvars, pvars, smutex, rec, files, avars>>
\* finished_block
WFinish(w) == /\ wpc[w] = "fin" /\ pmutex = None
              /\ Assert(cur[w][1] \in DOMAIN busy, "package not found")
              /\ ready' = ready \cup {busy[cur[w][1]]} /\ fin' = fin \cup {cur[w][1]}
              /\ busy' = [b \in DOMAIN busy \ {cur[w][1]} |-> busy[b]]
              /\ cur' = [cur EXCEPT ![w] = Nobody] /\ To(w, "top")
              /\ UNCHANGED <<mvars, asleep, tvars, pmutex, idle, svars, avars>>
WNext(w) == WTop(w) \/ WTest(w) \/ WSleep(w) \/ WWake(w) \/ WPublish(w) \/ WHalf(w) \/ WFinish(w)

Next == MNext \/ \E w \in Workers : WNext(w) \/ WSpurious(w)
\* fair: a thread that can run again and again (for instance obtain a contended mutex) does run
Spec == Init /\ [][Next]_vars /\ SF_vars(MNext) /\ \A w \in Workers : SF_vars(WNext(w))
\* the loop of the assigning thread may not save for ever (left bounds it)

Terminated == mpc = "end" /\ \A w \in Workers : wpc[w] = "end"
\* C10
Ends == <>Terminated
NotStuck == Terminated \/ ENABLED (MNext \/ \E w \in Workers : WNext(w))
EndState == Terminated => /\ UNION {f[2] : f \in files} = Packages
                          /\ reps = Packages
\* C09: every saved pair is consistent
Names(T) == {x[1] : x \in T}
PairsOK == \A f \in files : f[2] = Names(f[3])
\* C16: what is under the path of a modulus belongs to it and was computed with its tables
PathsOK == \A f \in files : \A x \in f[3] : ModOf(x[1]) = f[1] /\ x[2] = f[1]

-----------------------------------------------------------------------------
(* refinement *)
JobOf(w) == IF cur[w] # Nobody THEN cur[w][1]
            ELSE IF queue[w] # <<>> THEN Head(queue[w])[1]
            ELSE Nobody
\* handing out takes effect when the package enters the queue
IdleAbs == {idle[i] : i \in 1..Len(idle)} \cup (IF mpc = "tlock" THEN {mw} ELSE {})
Abs == INSTANCE PoolAbs WITH
         free <- ready, idle <- IdleAbs, job <- [w \in Workers |-> JobOf(w)],
         out <- Names(tab), saved <- {Names(f[3]) : f \in files} \ {{}}, todo <- {b \in Packages : b > next \/ (b = next /\ mpc \notin {"tunlock", "tnotify"})},
         news <- fin, reported <- reps, over <- {w \in Workers : wpc[w] = "end"}
AbsSpec == Abs!Spec
AbsInv == Abs!Inv
OneQueued == \A w \in Workers : Len(queue[w]) <= 1 /\ (queue[w] # <<>> => cur[w] = Nobody)
=============================================================================
