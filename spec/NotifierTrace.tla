---------------------------- MODULE NotifierTrace ----------------------------
(* Evaluates NotifierProps on runs recorded from the real notifier.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
P == INSTANCE NotifierProps
VARIABLES t, i, s, bad
Init == t \in 1..Len(Data) /\ i = 0 /\ s = P!InitN /\ bad = FALSE
Next == /\ i < Len(Data[t].ev) /\ i' = i + 1 /\ t' = t
        /\ s' = P!EvolveN(s, Data[t].ev[i + 1])
        /\ bad' = P!ViolatedN(s, Data[t].ev[i + 1])
Spec == Init /\ [][Next]_<<t, i, s, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
