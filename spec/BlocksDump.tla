----------------------------- MODULE BlocksDump -----------------------------
(* Writes the small layouts as JSON, so that the implementation is run on   *)
(* exactly the layouts the model is checked on.                             *)
EXTENDS Blocks, Json, IOUtils
DumpInit == /\ L = 0 /\ pos = 0 /\ ended = TRUE /\ seen = {}
            /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(SmallLayouts))
DumpSpec == DumpInit /\ [][UNCHANGED vars]_vars
=============================================================================
