----------------------------- MODULE ResultsGen -----------------------------
(* Behaviours of Results as histories for the real program: for each run    *)
(* how it ends and during which save (0: before the first) it is disturbed. *)
EXTENDS Results, TLC
VARIABLES script, nth
gvars == <<vars, script, nth>>
Say(x) == script' = Append(script, x)
S(x) == ToString(x)
GInit == Init /\ script = <<>> /\ nth = 0
GNext == \/ Start /\ Say("run") /\ nth' = 0
         \/ (\E b \in Packages : Compute(b)) /\ UNCHANGED <<script, nth>>
         \/ Begin /\ mem # {} /\ UNCHANGED script /\ nth' = nth + 1
         \/ Write /\ UNCHANGED <<script, nth>>
         \/ Fail /\ Say("fail " \o S(nth) \o " " \o step) /\ UNCHANGED nth
         \/ Kill /\ Say("kill " \o S(nth) \o " " \o step) /\ UNCHANGED nth
         \/ End /\ Say("end") /\ UNCHANGED nth
         \/ Merge /\ Say("merge") /\ UNCHANGED nth
GSpec == GInit /\ [][GNext]_gvars
Done == (~on /\ runs = MaxRuns) => PrintT(<<"SCRIPT", script>>)
=============================================================================
