----------------------------- MODULE BrokerTrace -----------------------------
(* Evaluates BrokerProps on events recorded from the real code.  The         *)
(* recording is a forest: roots and kids are node numbers, a node holds one  *)
(* event, and every path from a root is one execution of the broker.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Prop

M == INSTANCE Matching
Data == JsonDeserialize(IOEnv.TRACE_FILE)
\* the matching relation, tabulated once
SatTab == [c \in 1..Len(Data.caps) |-> [r \in 1..Len(Data.reqs) |-> M!Meets(Data.caps[c], Data.reqs[r])]]
Node(k) == Data.nodes[k]
SatT(c, r) == SatTab[c][r]
P == INSTANCE BrokerProps WITH Sat <- SatT

VARIABLES l,    \* node whose event was consumed last
          o,    \* observer state
          bad   \* did that event break the property?

Init == \E r \in {Data.roots[i] : i \in 1..Len(Data.roots)} :
            /\ l = r
            /\ o = P!InitObs(Node(r).e.in.cfg)
            /\ bad = FALSE

\* reports the inputs that are expected to leave no trace (they are taken out of the history and the rest is replayed)
Note(k, e) == IF P!Inert(Prop, o, e) THEN PrintT(<<"INERT", k, P!SignOfLife(o, e)>>) ELSE TRUE

Next == \E i \in 1..Len(Node(l).kids) :
            LET k == Node(l).kids[i]
                e == Node(k).e
                p == P!Evolve(o, e) IN
            /\ l' = k
            /\ o' = p
            /\ Note(k, e)
            /\ bad' = P!ViolatedP(Prop, o, e, p)

Spec == Init /\ [][Next]_<<l, o, bad>>
Holds == ~bad
Show == [l |-> l, bad |-> bad]
=============================================================================
