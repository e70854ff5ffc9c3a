----------------------------- MODULE ConfigDump -----------------------------
EXTENDS Config, Json, IOUtils, SequencesExt
VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ done' = ndJsonSerialize(IOEnv.OUT, SetToSeq({[w \in DOMAIN d |-> ToString(d[w])] : d \in Documents}))
=============================================================================
