------------------------------- MODULE PoolGen ------------------------------
(* Behaviours of PoolAbs as scripts for the real thread pool: workers are   *)
(* held back at gates, so that the real pool goes through exactly this      *)
(* behaviour. Offers and reports are complete, as in the implementation.    *)
EXTENDS PoolAbs, Sequences, TLC
VARIABLES script, seen
gvars == <<vars, script, seen>>
Say(s) == script' = script \o s
GInit == Init /\ script = <<>> /\ seen = {}
S(x) == ToString(x)
First == CHOOSE b \in todo : \A c \in todo : b <= c
GNext ==
  \/ /\ free # {} /\ Offer(free) /\ Say(<<"R " \o S(Cardinality(free))>>) /\ UNCHANGED seen
  \/ /\ todo # {} /\ \E w \in Workers : Assign(w, First) /\ Say(<<"N">>) /\ UNCHANGED seen
  \* the worker has computed the package, whatever the others do
  \/ \E w \in Workers : /\ job[w] # Nobody /\ job[w] \notin seen /\ job[w] \notin Stored /\ seen' = seen \cup {job[w]}
                        /\ Say(<<"W " \o S(job[w])>>) /\ UNCHANGED vars
  \/ \E w \in Workers : Publish(w) /\ Say(<<"G " \o S(job[w]), "P " \o S(job[w])>>) /\ UNCHANGED seen
  \/ \E w \in Workers : Finish(w) /\ Say(<<"H " \o S(job[w])>>) /\ UNCHANGED seen
  \/ Report /\ Say(<<"F " \o S(Cardinality(news))>>) /\ UNCHANGED seen
  \/ Save /\ (IF Len(script) = 0 THEN TRUE ELSE script[Len(script)] # "S") /\ Say(<<"S">>) /\ UNCHANGED seen
  \/ /\ todo = {} /\ Busy = {} /\ news = {} /\ free = {} /\ over = {} /\ over' = Workers /\ Say(<<"S", "D">>)
     /\ UNCHANGED <<free, idle, job, out, saved, todo, news, reported, seen>>
GSpec == GInit /\ [][GNext]_gvars
Done == over # {} => PrintT(<<"SCRIPT", script>>)
=============================================================================
