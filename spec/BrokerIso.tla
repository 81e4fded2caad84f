------------------------------ MODULE BrokerIso ------------------------------
(* Self-composition of Broker.tla: `b` serves two groups of peers, A and B,  *)
(* that share no jobs (no worker of one satisfies a request of the other);   *)
(* `a` sees only what concerns group A (and the passing of time, and         *)
(* freezing).  Group A must not be able to tell the difference (C26).        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Mgr, Live, MaxF, JobsA, JobsB, WorkersA, WorkersB
Workers == WorkersA \cup WorkersB
\* capabilities 1, 2 and requirements 1, 2 belong to A, 3 to B
SatC(c, r) == <<c, r>> \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 3>>}
S == INSTANCE Broker WITH Sat <- SatC
Cfg == [mgr |-> Mgr, live |-> Live, ival |-> 10, maxf |-> MaxF]
Perms == IF Mgr = "multi" THEN {<< >>} ELSE SetToSeqs(Workers)

VARIABLES b, a, na, nb, diff
vars == <<b, a, na, nb, diff>>

IdA == <<"a1", "a2", "a3">>
IdB == <<"b1", "b2", "b3">>
CurId(x) == IF x \in DOMAIN b.w /\ b.w[x].cur # << >> THEN b.w[x].cur[1].id ELSE "nojob"
W(x) == [w |-> x]
Done(x) == {W(x) @@ [k |-> "done", id |-> CurId(x), st |-> s, n |-> 4, msg |-> "m"] : s \in {"OK", "INTERNAL_ERROR"}}
Reg(x, c) == W(x) @@ [k |-> "init", wf |-> TRUE, cap |-> c, hasdecl |-> FALSE, decl |-> ""]
InA == {[c |-> "ca", k |-> "eval", id |-> IdA[na + 1], req |-> r, pay |-> <<"p">>] : r \in IF na < JobsA THEN {1, 2} ELSE {}}
       \cup UNION {{Reg(x, 1), Reg(x, 2), W(x) @@ [k |-> "ping"]} \cup Done(x) : x \in WorkersA}
InB == {[c |-> "cb", k |-> "eval", id |-> IdB[nb + 1], req |-> 3, pay |-> <<"p">>] : i \in IF nb < JobsB THEN {1} ELSE {}}
       \cup UNION {{Reg(x, 3)} \cup Done(x) : x \in WorkersB}
Shared == {[k |-> "tick", ms |-> 11], [k |-> "freeze", c |-> "x"], [k |-> "unfreeze", c |-> "x"]}

RangeA == {IdA[i] : i \in 1..3}
OfA(m) == \/ m.to = "c" /\ m.who \in {"ca", "x"}
          \/ m.to = "w" /\ m.who \in WorkersA
          \/ m.to = "m" /\ m.f[1] \in RangeA
          \/ m.to = "n" /\ (m.id \in RangeA \/ m.t = "error")
Outs(e) == SelectSeq(e.out, OfA)
Keep(s) == SelectSeq(s, LAMBDA x : x \in WorkersA)
Proj(s) == [reg |-> Keep(s.reg), w |-> [x \in DOMAIN s.w \cap WorkersA |-> s.w[x]], lru |-> Keep(s.lru),
            q |-> [x \in DOMAIN s.q \cap WorkersA |-> s.q[x]], sq |-> SelectSeq(s.sq, LAMBDA j : j.req # 3), fz |-> s.fz]

Init == b = S!InitBroker(Cfg) /\ a = S!InitBroker(Cfg) /\ na = 0 /\ nb = 0 /\ diff = FALSE
Next == \E p \in Perms :
    \/ \E i \in InA : LET sb == S!Step(b, i, p)  sa == S!Step(a, i, p) IN
          /\ b' = sb.b /\ a' = sa.b /\ na' = (IF i.k = "eval" THEN na + 1 ELSE na) /\ nb' = nb
          /\ diff' = (sb.e.out # sa.e.out)
    \/ \E i \in InB : LET sb == S!Step(b, i, p) IN
          /\ b' = sb.b /\ a' = a /\ nb' = (IF i.k = "eval" THEN nb + 1 ELSE nb) /\ na' = na
          /\ diff' = (\E m \in 1..Len(sb.e.out) : sb.e.out[m].to # "n" /\ OfA(sb.e.out[m]))
    \/ \E i \in Shared : LET sb == S!Step(b, i, p)  sa == S!Step(a, i, p) IN
          /\ b' = sb.b /\ a' = sa.b /\ UNCHANGED <<na, nb>>
          /\ diff' = (Outs(sb.e) # Outs(sa.e))
Spec == Init /\ [][Next]_vars
Same == ~diff /\ Proj(b) = Proj(a)
\* statistics and counters do not matter
View == <<[b EXCEPT !.snap = 0, !.ev = 0, !.fa = 0], [a EXCEPT !.snap = 0, !.ev = 0, !.fa = 0], na, nb, diff>>
=============================================================================
