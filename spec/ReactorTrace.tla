---------------------------- MODULE ReactorTrace ----------------------------
(* Evaluates ReactorProps on runs recorded from the real reactor.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, r, bad

Hof(x) == Data[x].handlers
HNames == UNION {{Data[x].handlers[j].name : j \in 1..Len(Data[x].handlers)} : x \in 1..Len(Data)}
HRec(h) == LET c == CHOOSE p \in {<<x, j>> : x \in 1..Len(Data), j \in 1..6} :
                        p[2] <= Len(Data[p[1]].handlers) /\ Data[p[1]].handlers[p[2]].name = h
           IN Data[c[1]].handlers[c[2]]
\* handler names are unique over all the runs
ATab == [h \in HNames |-> HRec(h).async]
STab == [h \in HNames |-> {HRec(h).subs[j] : j \in 1..Len(HRec(h).subs)}]
Asy(h) == ATab[h]
Sub(h) == STab[h]
Socks == UNION {{Data[x].sockets[j] : j \in 1..Len(Data[x].sockets)} : x \in 1..Len(Data)}
P == INSTANCE ReactorProps WITH Handlers <- HNames, IsAsync <- Asy, Subs <- Sub, Sockets <- Socks

Init == t \in 1..Len(Data) /\ i = 0 /\ r = P!InitR /\ bad = FALSE
Next == /\ i < Len(Data[t].ev)
        /\ i' = i + 1 /\ t' = t
        /\ r' = P!EvolveR(r, Data[t].ev[i + 1])
        /\ bad' = P!ViolatedR(Prop, r, Data[t].ev[i + 1])
Spec == Init /\ [][Next]_<<t, i, r, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
