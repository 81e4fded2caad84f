------------------------------ MODULE PairTrace ------------------------------
(* Pairs of executions of the real broker.  The second is the first with     *)
(* those inputs taken out that, by BrokerProps!Inert, must leave no trace.   *)
(* Every other input must meet with exactly the same reaction in both, and   *)
(* leave the same workers, current jobs and statistics behind.               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
Init == t \in 1..Len(Data) /\ i = 0 /\ bad = FALSE
Next == /\ i < Len(Data[t].ev) /\ i' = i + 1 /\ t' = t
        /\ bad' = (Data[t].ev[i + 1].with # Data[t].ev[i + 1].without)
Spec == Init /\ [][Next]_<<t, i, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
