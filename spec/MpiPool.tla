------------------------------ MODULE MpiPool -------------------------------
(* Several processes: the master (process 0, class MPIWorkerPool), which    *)
(* enumerates, has threads of its own and asks the others, and the loop of  *)
(* the other processes (main_mpi_worker). Messages between two processes    *)
(* arrive in the order in which they were sent. What happens inside of one  *)
(* process is the matter of PoolImpl; here a local pool is a set of threads *)
(* with the accesses ThreadPool offers, each of them one step.              *)
(*                                                                          *)
(* Switches for negative controls:                                          *)
(*  NoWait    the next modulus is announced without waiting for the last    *)
(*  Greedy    handing out does not use up the offer                         *)
(*  OwnOnly   the last save collects the master's results only              *)
(*  Overtake  messages may overtake each other                              *)
(*  NoConfig  only the master's own pool learns of the next modulus         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NProcs, NThreads, NPackages, Split, Saves, Nobody, NoWait, Greedy, OwnOnly, Overtake, NoConfig

Procs == 1..NProcs
All == 0..NProcs
Threads == All \X (1..NThreads)
Of(p) == {t \in Threads : t[1] = p}
Packages == 1..NPackages
ModOf(b) == IF b <= Split THEN 1 ELSE 2

VARIABLES
  mpc, why, mp,       \* master: where it is, what for, the process it deals with
  next, left,         \* next package, saves still allowed
  queue, assigned,    \* master: processes with an idle thread; packages each process has
  modulus,            \* modulus whose files are written
  chan, back,         \* messages to and from each process
  ready, idle, job, fin,   \* local pools
  tab, tables,        \* results not handed on: pairs of package and modulus; modulus of the tables in use
  files,              \* saved: pairs of modulus and results
  reps,               \* packages reported to the master
  ppc, down           \* state of each process; threads stopped

vars == <<mpc, why, mp, next, left, queue, assigned, modulus, chan, back, ready, idle, job, fin, tab, tables, files, reps, ppc, down>>
mvars == <<mpc, why, mp, next, left, queue, assigned, modulus>>
lvars == <<ready, idle, job, fin, tab, tables>>

Init ==
  /\ mpc = "loop" /\ why = "none" /\ mp = 0 /\ next = 1 /\ left = Saves /\ queue = <<>>
  /\ assigned = [p \in All |-> {}] /\ modulus = 0
  /\ chan = [p \in Procs |-> <<>>] /\ back = [p \in Procs |-> <<>>]
  /\ ready = [p \in All |-> Of(p)] /\ idle = [p \in All |-> {}] /\ job = [t \in Threads |-> Nobody] /\ fin = [p \in All |-> {}]
  /\ tab = [p \in All |-> {}] /\ tables = [p \in All |-> 0] /\ files = {} /\ reps = {}
  /\ ppc = [p \in All |-> "run"] /\ down = {}

Names(T) == {x[1] : x \in T}
Repeat(p, n) == [i \in 1..n |-> p]
Send(p, m) == chan' = [chan EXCEPT ![p] = Append(@, m)]
Answer(p, m) == back' = [back EXCEPT ![p] = Append(@, m)]
Write(T) == files' = IF modulus = 0 THEN files ELSE files \cup {<<modulus, T>>}

-----------------------------------------------------------------------------
(* master *)
Go(l) == mpc' = l
Keep == UNCHANGED <<ready, idle, job, fin, tab, tables, files, reps, ppc, down>>
MLoop == /\ mpc = "loop"
         /\ IF next > NPackages THEN Go("own") /\ why' = "end"
            ELSE IF ModOf(next) # modulus
            THEN IF NoWait THEN Go("save") /\ why' = "config" ELSE Go("own") /\ why' = "config"
            ELSE Go("own") /\ why' = "fill"
         /\ UNCHANGED <<mp, next, left, queue, assigned, modulus, chan, back>> /\ Keep
\* the periodic save
MSaveMid == /\ mpc = "loop" /\ left > 0 /\ modulus # 0 /\ left' = left - 1 /\ Go("save") /\ why' = "mid"
            /\ UNCHANGED <<mp, next, queue, assigned, modulus, chan, back>> /\ Keep
\* flush_finished_blocks
Reported(p, S) == /\ Assert(S \subseteq assigned[p], "reported package was not assigned to the process")
                  /\ assigned' = [assigned EXCEPT ![p] = @ \ S] /\ reps' = reps \cup S
MOwn == /\ mpc = "own" /\ Reported(0, fin[0]) /\ fin' = [fin EXCEPT ![0] = {}]
        /\ mp' = 1 /\ Go(IF NProcs = 0 THEN "fdone" ELSE "fsend")
        /\ UNCHANGED <<why, next, left, queue, modulus, chan, back, ready, idle, job, tab, tables, files, ppc, down>>
MFSend == /\ mpc = "fsend" /\ Send(mp, <<"finished">>) /\ Go("frecv")
          /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, back>> /\ Keep
MFRecv == /\ mpc = "frecv" /\ back[mp] # <<>> /\ Assert(Head(back[mp])[1] = "finished", "other answer than asked for")
          /\ Reported(mp, Head(back[mp])[2]) /\ back' = [back EXCEPT ![mp] = Tail(@)]
          /\ IF mp = NProcs THEN Go("fdone") /\ mp' = 0 ELSE Go("fsend") /\ mp' = mp + 1
          /\ UNCHANGED <<why, next, left, queue, modulus, chan, lvars, files, ppc, down>>
MFDone == /\ mpc = "fdone"
          /\ IF why = "fill" THEN Go("ready")
             ELSE IF \A p \in All : assigned[p] = {} THEN Go("save") ELSE Go("own")
          /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, chan, back>> /\ Keep
\* flush_ready_threads
MReady == /\ mpc = "ready" /\ queue' = queue \o Repeat(0, Cardinality(ready[0]))
          /\ idle' = [idle EXCEPT ![0] = @ \cup ready[0]] /\ ready' = [ready EXCEPT ![0] = {}]
          /\ mp' = 1 /\ Go(IF NProcs = 0 THEN "rdone" ELSE "rsend")
          /\ UNCHANGED <<why, next, left, assigned, modulus, chan, back, job, fin, tab, tables, files, reps, ppc, down>>
MRSend == /\ mpc = "rsend" /\ Send(mp, <<"ready">>) /\ Go("rrecv")
          /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, back>> /\ Keep
MRRecv == /\ mpc = "rrecv" /\ back[mp] # <<>> /\ Assert(Head(back[mp])[1] = "ready", "other answer than asked for")
          /\ queue' = queue \o Repeat(mp, Head(back[mp])[2]) /\ back' = [back EXCEPT ![mp] = Tail(@)]
          /\ IF mp = NProcs THEN Go("rdone") /\ mp' = 0 ELSE Go("rsend") /\ mp' = mp + 1
          /\ UNCHANGED <<why, next, left, assigned, modulus, chan>> /\ Keep
MRDone == /\ mpc = "rdone" /\ Go(IF queue = <<>> THEN "own" ELSE "hand")
          /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, chan, back>> /\ Keep
\* assign
Take(p, b) == \* ThreadPool::assign in process p
  /\ Assert(idle[p] # {}, "no idle thread")
  /\ LET t == CHOOSE t \in idle[p] : TRUE
     IN  idle' = [idle EXCEPT ![p] = @ \ {t}] /\ job' = [job EXCEPT ![t] = <<b, tables[p]>>]
MHand == /\ mpc = "hand" /\ queue' = (IF Greedy /\ Len(queue) = 1 THEN queue ELSE Tail(queue))
         /\ LET p == Head(queue) IN
            /\ assigned' = [assigned EXCEPT ![p] = @ \cup {next}]
            /\ IF p = 0 THEN Take(0, next) /\ UNCHANGED chan ELSE Send(p, <<"assign", next>>) /\ UNCHANGED <<idle, job>>
         /\ next' = next + 1 /\ Go("loop")
         /\ UNCHANGED <<why, mp, left, modulus, back, ready, fin, tab, tables, files, reps, ppc, down>>
\* save_global_stores_to_file
After == CASE why = "mid" -> "loop" [] why = "config" -> "config" [] OTHER -> "shut"
MSave == /\ mpc = "save" /\ Write(tab[0]) /\ tab' = [tab EXCEPT ![0] = {}] /\ mp' = 1
         /\ Go(IF NProcs = 0 \/ modulus = 0 \/ (OwnOnly /\ why = "end") THEN After ELSE "ssend")
         /\ UNCHANGED <<why, next, left, queue, assigned, modulus, chan, back, ready, idle, job, fin, tables, reps, ppc, down>>
MSSend == /\ mpc = "ssend" /\ Send(mp, <<"save">>) /\ Go("srecv")
          /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, back>> /\ Keep
MSRecv == /\ mpc = "srecv" /\ back[mp] # <<>> /\ Assert(Head(back[mp])[1] = "save", "other answer than asked for")
          /\ Write(Head(back[mp])[2]) /\ back' = [back EXCEPT ![mp] = Tail(@)]
          /\ IF mp = NProcs THEN Go(After) /\ mp' = 0 ELSE Go("ssend") /\ mp' = mp + 1
          /\ UNCHANGED <<why, next, left, queue, assigned, modulus, chan, lvars, reps, ppc, down>>
\* update_config
MConfig == /\ mpc = "config" /\ modulus' = ModOf(next) /\ tables' = [tables EXCEPT ![0] = ModOf(next)]
           /\ mp' = 1 /\ Go(IF NProcs = 0 \/ NoConfig THEN "loop" ELSE "csend")
           /\ UNCHANGED <<why, next, left, queue, assigned, chan, back, ready, idle, job, fin, tab, files, reps, ppc, down>>
MCSend == /\ mpc = "csend" /\ Send(mp, <<"config", modulus>>)
          /\ IF mp = NProcs THEN Go("loop") /\ mp' = 0 ELSE Go("csend") /\ mp' = mp + 1
          /\ UNCHANGED <<why, next, left, queue, assigned, modulus, back>> /\ Keep
\* destructor, then the end of message passing, which waits for all processes
MShut == /\ mpc = "shut" /\ chan' = [p \in Procs |-> Append(chan[p], <<"shutdown">>)] /\ Go("final") /\ ppc' = [ppc EXCEPT ![0] = "stop"]
         /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, back, lvars, files, reps, down>>
MEnd == /\ mpc = "final" /\ \A p \in All : ppc[p] = "end" /\ Go("end")
        /\ UNCHANGED <<why, mp, next, left, queue, assigned, modulus, chan, back>> /\ Keep
MNext == MLoop \/ MSaveMid \/ MOwn \/ MFSend \/ MFRecv \/ MFDone \/ MReady \/ MRSend \/ MRRecv \/ MRDone \/ MHand \/ MSave \/ MSSend
         \/ MSRecv \/ MConfig \/ MCSend \/ MShut \/ MEnd

-----------------------------------------------------------------------------
(* the loop of process p: any message it may take next *)
Open(p) == IF chan[p] = <<>> THEN {} ELSE IF Overtake THEN 1..Len(chan[p]) ELSE {1}
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PStep(p) ==
  /\ ppc[p] = "run"
  /\ \E i \in Open(p) : LET m == chan[p][i] IN
       /\ chan' = [chan EXCEPT ![p] = Cut(@, i)]
       /\ CASE m[1] = "config" -> /\ tables' = [tables EXCEPT ![p] = m[2]]
                                  /\ UNCHANGED <<back, ready, idle, job, fin, tab, ppc>>
            [] m[1] = "assign" -> /\ Take(p, m[2]) /\ UNCHANGED <<back, ready, fin, tab, tables, ppc>>
            [] m[1] = "finished" -> /\ Answer(p, <<"finished", fin[p]>>) /\ fin' = [fin EXCEPT ![p] = {}]
                                    /\ UNCHANGED <<ready, idle, job, tab, tables, ppc>>
            [] m[1] = "ready" -> /\ Answer(p, <<"ready", Cardinality(ready[p])>>)
                                 /\ idle' = [idle EXCEPT ![p] = @ \cup ready[p]] /\ ready' = [ready EXCEPT ![p] = {}]
                                 /\ UNCHANGED <<job, fin, tab, tables, ppc>>
            [] m[1] = "save" -> /\ Answer(p, <<"save", tab[p]>>) /\ tab' = [tab EXCEPT ![p] = {}]
                                /\ UNCHANGED <<ready, idle, job, fin, tables, ppc>>
            [] OTHER -> /\ ppc' = [ppc EXCEPT ![p] = "stop"] /\ UNCHANGED <<back, ready, idle, job, fin, tab, tables>>
  /\ UNCHANGED <<mvars, files, reps, down>>
PEnd(p) == /\ ppc[p] = "stop" /\ Of(p) \subseteq down /\ ppc' = [ppc EXCEPT ![p] = "end"]
           /\ UNCHANGED <<mvars, chan, back, lvars, files, reps, down>>
\* thread t
TPublish(t) == /\ job[t] # Nobody /\ job[t] \notin tab[t[1]] /\ job[t][1] \notin UNION {Names(f[2]) : f \in files}
               /\ \A i \in 1..(IF t[1] = 0 THEN 0 ELSE Len(back[t[1]])) : back[t[1]][i][1] = "save" => job[t] \notin back[t[1]][i][2]
               /\ tab' = [tab EXCEPT ![t[1]] = @ \cup {job[t]}]
               /\ UNCHANGED <<mvars, chan, back, ready, idle, job, fin, tables, files, reps, ppc, down>>
InFlight == UNION {UNION {IF back[p][i][1] = "save" THEN back[p][i][2] ELSE {} : i \in 1..Len(back[p])} : p \in Procs}
Stored == (UNION {tab[p] : p \in All}) \cup InFlight \cup UNION {f[2] : f \in files}
TFinish(t) == /\ job[t] # Nobody /\ job[t][1] \in Names(Stored)
              /\ fin' = [fin EXCEPT ![t[1]] = @ \cup {job[t][1]}] /\ ready' = [ready EXCEPT ![t[1]] = @ \cup {t}]
              /\ job' = [job EXCEPT ![t] = Nobody]
              /\ UNCHANGED <<mvars, chan, back, idle, tab, tables, files, reps, ppc, down>>
TStop(t) == /\ ppc[t[1]] = "stop" /\ job[t] = Nobody /\ t \notin down /\ down' = down \cup {t}
            /\ UNCHANGED <<mvars, chan, back, lvars, files, reps, ppc>>
TNext(t) == TPublish(t) \/ TFinish(t) \/ TStop(t)

Next == MNext \/ (\E p \in Procs : PStep(p)) \/ (\E p \in All : PEnd(p)) \/ (\E t \in Threads : TNext(t))
Spec == Init /\ [][Next]_vars /\ SF_vars(MNext) /\ (\A p \in All : WF_vars(PEnd(p))) /\ (\A p \in Procs : WF_vars(PStep(p))) /\ (\A t \in Threads : WF_vars(TNext(t)))

Terminated == mpc = "end"
Ends == <>Terminated
NotStuck == Terminated \/ ENABLED Next
EndState == Terminated => /\ UNION {Names(f[2]) : f \in files} = Packages /\ reps = Packages
                          /\ \A p \in Procs : chan[p] = <<>> /\ back[p] = <<>>
                          /\ down = Threads
\* offers: the master counts for each process exactly the idle threads it has
Counted(p) == LET InQueue == Cardinality({i \in 1..Len(queue) : queue[i] = p})
                  Sum[i \in 0..(IF p = 0 THEN 0 ELSE Len(back[p]))] == IF i = 0 THEN 0 ELSE Sum[i-1] + (IF back[p][i][1] = "ready" THEN back[p][i][2] ELSE 0)
                  Handed == IF p = 0 THEN 0 ELSE Cardinality({i \in 1..Len(chan[p]) : chan[p][i][1] = "assign"})
              IN  Cardinality(idle[p]) = InQueue + Sum[IF p = 0 THEN 0 ELSE Len(back[p])] + Handed
Credit == \A p \in All : Counted(p)
\* a process has at most as many packages as threads
ProcBound == \A p \in All : Cardinality(assigned[p] \ fin[p]) <= NThreads + Cardinality({b \in assigned[p] : b \in reps \/ \E i \in 1..(IF p = 0 THEN 0 ELSE Len(back[p])) : back[p][i][1] = "finished" /\ b \in back[p][i][2]})
OneProcess == \A p, q \in All : p # q => assigned[p] \cap assigned[q] = {}
PathsOK == \A f \in files : \A x \in f[2] : ModOf(x[1]) = f[1] /\ x[2] = f[1]

-----------------------------------------------------------------------------
(* refinement: a package is handed out when its process takes the message *)
FlightAssign == UNION {{chan[p][i][2] : i \in {j \in 1..Len(chan[p]) : chan[p][j][1] = "assign"}} : p \in Procs}
FlightNews == UNION {UNION {IF back[p][i][1] = "finished" THEN back[p][i][2] ELSE {} : i \in 1..Len(back[p])} : p \in Procs}
FlightSaves == UNION {{Names(back[p][i][2]) : i \in {j \in 1..Len(back[p]) : back[p][j][1] = "save"}} : p \in Procs}
Abs == INSTANCE PoolAbs WITH
         Workers <- Threads, free <- UNION {ready[p] : p \in All}, idle <- UNION {idle[p] : p \in All},
         job <- [t \in Threads |-> IF job[t] = Nobody THEN Nobody ELSE job[t][1]],
         out <- Names(UNION {tab[p] : p \in All}), saved <- ({Names(f[2]) : f \in files} \cup FlightSaves) \ {{}},
         todo <- {b \in Packages : b >= next} \cup FlightAssign,
         news <- (UNION {fin[p] : p \in All}) \cup FlightNews, reported <- reps, over <- down
AbsSpec == Abs!Spec
AbsInv == Abs!Inv
=============================================================================
