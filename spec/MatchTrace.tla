----------------------------- MODULE MatchTrace -----------------------------
(* Compares the verdicts of the real broker on every pair of MatchGen with   *)
(* Matching.  Data.got[c][r] is "1" if request r was accepted by a broker    *)
(* whose only worker has capabilities c, "0" if rejected.                    *)
EXTENDS Matching, Json, IOUtils
CONSTANT Prop
Data == JsonDeserialize(IOEnv.TRACE_FILE)
IsMeta(n) == Len(n) >= 5 /\ SubSeq(n, 1, 5) = "meta."
Wanted(req) == SelectSeq(req, LAMBDA h : ~IsMeta(h[1]))
NR == Len(Data.reqs)
VARIABLES t, i, bad
Init == t \in 1..Len(Data.caps) /\ i = 0 /\ bad = FALSE
\* a whole row (one capability set) is one step; i is the first request that is decided wrongly (0: none)
Wrong == {r \in 1..NR : Data.got[t][r] # (IF Meets(Data.caps[t], Wanted(Data.reqs[r])) THEN 1 ELSE 0)}
Next == i = 0 /\ ~bad /\ t' = t /\ bad' = (Wrong # {}) /\ i' = IF Wrong = {} THEN NR ELSE CHOOSE r \in Wrong : TRUE
Spec == Init /\ [][Next]_<<t, i, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
=============================================================================
