----------------------------- MODULE RouterTrace -----------------------------
(* Evaluates RouterProps on runs recorded from the real socket wrapper.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
P == INSTANCE RouterProps
VARIABLES t, i, x, bad
Init == t \in 1..Len(Data) /\ i = 0 /\ x = P!InitX /\ bad = FALSE
Next == /\ i < Len(Data[t].ev) /\ i' = i + 1 /\ t' = t
        /\ x' = P!EvolveX(x, Data[t].ev[i + 1])
        /\ bad' = P!ViolatedX(x, Data[t].ev[i + 1])
Spec == Init /\ [][Next]_<<t, i, x, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
