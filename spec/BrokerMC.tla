------------------------------- MODULE BrokerMC -------------------------------
(* The operational model composed with the observer: every behaviour of      *)
(* Broker.tla (within the constants) must satisfy every property of          *)
(* BrokerProps.tla.  Inputs are chosen freely: there is no assumption on     *)
(* what clients and workers send.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Mgr, Live, MaxF,       \* configuration of the broker
          Workers, Caps, Reqs,   \* identities, capability numbers, requirement numbers
          MaxJobs,               \* number of evaluation requests
          Feats,                 \* optional inputs: subset of FeatNames
          Props                  \* properties to be evaluated

FeatNames == {"freeze", "adopt", "reinit", "junk", "dup", "stats"}
\* capability c satisfies requirement r: 1 satisfies 1; 2 satisfies 1 and 2; 3 satisfies 2 only
SatC(c, r) == <<c, r>> \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>}
B == INSTANCE Broker WITH Sat <- SatC
P == INSTANCE BrokerProps WITH Sat <- SatC

Cfg == [mgr |-> Mgr, live |-> Live, ival |-> 10, maxf |-> MaxF]
Perms == IF Mgr = "multi" THEN {<< >>} ELSE SetToSeqs(Workers)

VARIABLES b, o, broken, n, in
vars == <<b, o, broken, n, in>>

JobId == [i \in 1..6 |-> CHOOSE s \in {"j1", "j2", "j3", "j4", "j5", "j6"} :
                          s = <<"j1", "j2", "j3", "j4", "j5", "j6">>[i]]
CurId(x) == IF x \in DOMAIN b.w /\ b.w[x].cur # << >> THEN b.w[x].cur[1].id ELSE "nojob"
W0(x) == [w |-> x, who |-> x, bad |-> FALSE]
C0 == [c |-> "c1", who |-> "c1", bad |-> FALSE]

\* the job it runs, or (counted like a submission, to keep the model finite) one the broker does not know
DeclIds(x) == ({CurId(x)} \ {"nojob"}) \cup (IF n < MaxJobs THEN {"ext"} ELSE {})
CapOf(x) == IF x \in DOMAIN b.w THEN b.w[x].cap ELSE 0
InitCaps(x) == IF "reinit" \in Feats \/ CapOf(x) = 0 THEN Caps ELSE {CapOf(x)}

Inputs ==
    {C0 @@ [k |-> "eval", id |-> JobId[n + 1], req |-> r, pay |-> <<"p">>] : r \in IF n < MaxJobs THEN Reqs ELSE {}}
    \cup (IF "dup" \in Feats /\ n < MaxJobs /\ n > 0
          THEN {C0 @@ [k |-> "eval", id |-> JobId[1], req |-> r, pay |-> <<"p">>] : r \in Reqs} ELSE {})
    \cup {W0(x) @@ [k |-> "init", wf |-> TRUE, cap |-> c, hasdecl |-> FALSE, decl |-> ""] :
            x \in Workers, c \in Caps}
    \cup (IF "adopt" \in Feats
          THEN UNION {{W0(x) @@ [k |-> "init", wf |-> TRUE, cap |-> c, hasdecl |-> TRUE, decl |-> d] :
                        c \in Caps, d \in DeclIds(x)} : x \in Workers} ELSE {})
    \cup {W0(x) @@ [k |-> "done", id |-> CurId(x), st |-> s, n |-> 4, msg |-> "m"] :
            x \in Workers, s \in {"OK", "FAILED", "INTERNAL_ERROR"}}
    \cup {W0(x) @@ [k |-> "ping"] : x \in Workers}
    \cup {[k |-> "tick", ms |-> 11, bad |-> FALSE, who |-> ""]}
    \cup (IF "freeze" \in Feats THEN {C0 @@ [k |-> "freeze"], C0 @@ [k |-> "unfreeze"]} ELSE {})
    \cup (IF "stats" \in Feats THEN {C0 @@ [k |-> "stats"]} ELSE {})
    \cup (IF "junk" \in Feats
          THEN {W0(x) @@ [k |-> "done", id |-> "j1", st |-> s, n |-> 4, msg |-> "m"] : x \in Workers, s \in {"OK", "INTERNAL_ERROR", "WHAT"}}
               \cup {C0 @@ [k |-> "evalbad"], W0("zz") @@ [k |-> "ping"], W0("zz") @@ [k |-> "prog", f |-> <<"a">>]}
          ELSE {})

Allowed(i) == i.k = "init" => i.cap \in InitCaps(i.w)

Init == /\ b = B!InitBroker(Cfg)
        /\ o = P!InitObs(Cfg)
        /\ broken = {}
        /\ n = 0
        /\ in = [k |-> "reset"]

Next == \E i \in {x \in Inputs : Allowed(x)} : \E perm \in Perms :
            LET s == B!Step(b, i, perm) IN
            /\ b' = s.b
            /\ in' = i
            /\ n' = IF n < MaxJobs /\ (i.k = "eval" \/ (i.k = "init" /\ i.hasdecl /\ i.decl = "ext")) THEN n + 1 ELSE n
            /\ o' = P!Evolve(o, s.e)
            \* (inputs that must leave no trace change nothing at all but the sender's liveness)
            /\ broken' = {p \in Props : P!ViolatedP(p, o, s.e, o') \/ (P!Inert(p, o, s.e) /\ s.b # B!Touch(b, i))}

Spec == Init /\ [][Next]_vars
AllHold == broken = {}
View == <<b, o, n>>

\* structural invariants of the model itself
RegOK == /\ Len(b.reg) = Cardinality(DOMAIN b.w)
         /\ \A i, k \in 1..Len(b.reg) : i # k => b.reg[i] # b.reg[k]
\* the observer knows where every job is
Agree == /\ {b.w[x].cur # << >> : x \in DOMAIN b.w} \subseteq BOOLEAN
         /\ \A x \in DOMAIN b.w : (b.w[x].cur = << >>) = (o.W[x].cur = P!NoJob)
         /\ \A x \in DOMAIN b.w : b.w[x].cur # << >> /\ b.w[x].cur[1].full => o.J[o.W[x].cur].fails = b.w[x].cur[1].fails
         /\ Mgr = "single" => Len(b.sq) = Cardinality(P!Waiting(o))
         /\ Mgr = "multi" => o.rr /\ \A x \in DOMAIN b.w : Len(b.q[x]) = Len(o.pq[x])
=============================================================================
