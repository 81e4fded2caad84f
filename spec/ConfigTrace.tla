----------------------------- MODULE ConfigTrace -----------------------------
(* Compares what the real configuration loader made of each document with    *)
(* the meaning given in Config.tla.                                          *)
EXTENDS Config, Json, IOUtils
CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
Init == t \in 1..Len(Data) /\ i = 0 /\ bad = FALSE
Next == /\ i < Len(Data[t].ev) /\ i' = i + 1 /\ t' = t
        /\ bad' = (Effect(Data[t].ev[i + 1].d) # Data[t].ev[i + 1].r)
Spec == Init /\ [][Next]_<<t, i, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
