------------------------------- MODULE LogTrace -------------------------------
(* Judges the log files the real program left behind.  An event is           *)
(*   [level, max, rot, files, whole, traffic]                                *)
(* files: what it left with these settings, the newest first; whole: what a  *)
(* run with the same level and no limits wrote; traffic: the records that a  *)
(* run with the most verbose level wrote for the peers' messages.            *)
EXTENDS Log, Json, IOUtils, TLC
CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
Allowed(e) ==
    /\ \A k \in 1..Len(e.whole) : Rank[e.whole[k].l] >= Need[e.level]
    /\ IsSuffix(Kept(e.level, e.traffic), e.whole)
    /\ e.files = (IF e.whole = << >> THEN << << >> >> ELSE WriteAll(<< << >> >>, e.whole, e.max, e.rot))
Init == t \in 1..Len(Data) /\ i = 0 /\ bad = FALSE
Next == /\ i < Len(Data[t].ev) /\ i' = i + 1 /\ t' = t
        /\ bad' = ~Allowed(Data[t].ev[i + 1])
Spec == Init /\ [][Next]_<<t, i, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
