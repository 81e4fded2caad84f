------------------------------ MODULE BrokerGen ------------------------------
(* Generates behaviours of the operational model to be replayed into the     *)
(* real broker.  Only the inputs are written out (symbolically: "@cur" is    *)
(* whatever job the worker is running by then); the implementation's         *)
(* reactions are recorded and judged by BrokerTrace.                         *)
(* Used with TLC -simulate (long random behaviours of a larger model) and    *)
(* exhaustively (one path to every reachable state of a small model).        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Mgr, Live, MaxF, Workers, Caps, Reqs, MaxJobs, Depth, Mode

SatC(c, r) == <<c, r>> \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>}
B == INSTANCE Broker WITH Sat <- SatC

Cfg == [mgr |-> Mgr, live |-> Live, ival |-> 10, maxf |-> MaxF]

VARIABLES b, n, hist
vars == <<b, n, hist>>

CurId(x) == IF x \in DOMAIN b.w /\ b.w[x].cur # << >> THEN b.w[x].cur[1].id ELSE "~"
IsBusy(x) == CurId(x) # "~"
Ids == <<"j1", "j2", "j3", "j4", "j5", "j6", "j7", "j8", "j9", "j10", "j11", "j12", "j13", "j14", "j15", "j16",
         "j17", "j18", "j19", "j20", "j21", "j22", "j23", "j24", "j25", "j26", "j27", "j28", "j29", "j30">>

\* an input: [i |-> model input, s |-> its symbolic form for the harness]
Ev(r) == [i |-> [k |-> "eval", c |-> "c1", id |-> Ids[n + 1], req |-> r, pay |-> << >>],
          s |-> <<"eval", Ids[n + 1], ToString(r)>>]
Ini(x, c, h, d) == [i |-> [k |-> "init", w |-> x, wf |-> TRUE, cap |-> c, hasdecl |-> h, decl |-> d],
                    s |-> <<"init", x, ToString(c), IF ~h THEN "" ELSE IF IsBusy(x) /\ d = CurId(x) THEN "@CUR" ELSE d>>]
Don(x, st) == [i |-> [k |-> "done", w |-> x, id |-> CurId(x), st |-> st, n |-> 4, msg |-> "m"], s |-> <<"done", x, st>>]
Stale(x, y, st) == [i |-> [k |-> "done", w |-> x, id |-> CurId(y), st |-> st, n |-> 4, msg |-> "m"],
                    s |-> <<"stale", x, y, st>>]
Tck(ms) == [i |-> [k |-> "tick", ms |-> ms], s |-> <<"tick", ToString(ms)>>]
Png(x) == [i |-> [k |-> "ping", w |-> x], s |-> <<"ping", x>>]
Frz(k) == [i |-> [k |-> k, c |-> "c1"], s |-> <<k>>]

CapOf(x) == IF x \in DOMAIN b.w THEN b.w[x].cap ELSE 0

Core == (IF n < MaxJobs THEN {Ev(r) : r \in Reqs} ELSE {})
        \cup {Don(x, st) : x \in {y \in Workers : IsBusy(y)}, st \in {"OK", "FAILED", "INTERNAL_ERROR"}}
        \cup {Ini(x, c, FALSE, "") : x \in {y \in Workers : y \notin DOMAIN b.w}, c \in Caps}
        \cup {Png(x) : x \in Workers}
        \cup {Tck(11)}
Extra == {Stale(x, y, st) : x \in Workers, y \in Workers, st \in {"OK", "INTERNAL_ERROR"}}
         \cup {Don(x, "OK") : x \in Workers}
         \cup {Ini(x, c, FALSE, "") : x \in Workers, c \in Caps}
         \cup {Ini(x, c, TRUE, d) : x \in Workers, c \in Caps, d \in {"ext"}}
         \cup {Ini(x, c, TRUE, CurId(x)) : x \in {y \in Workers : IsBusy(y)}, c \in Caps}
         \cup {Tck(6), Tck(10)}
         \cup {Frz("freeze"), Frz("unfreeze"), Frz("stats")}

\* in simulation the frequency of an input is proportional to the number of copies of its disjunct
Do(x) == LET perm == SetToSeq(Workers) IN
         /\ b' = B!Step(b, x.i, perm).b
         /\ n' = IF x.i.k = "eval" THEN n + 1 ELSE n
         /\ hist' = Append(hist, x.s)

Init == b = B!InitBroker(Cfg) /\ n = 0 /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ IF Mode = "sim"
           THEN \E x \in LET r == RandomElement(1..10) IN
                         IF r <= 6 THEN {RandomElement(Core)} ELSE IF r <= 8 THEN {RandomElement(Extra)}
                         ELSE IF n < MaxJobs THEN {Ev(RandomElement(Reqs))} ELSE {RandomElement(Core)} : Do(x)
           ELSE \E x \in Core \cup Extra : Do(x)
Spec == Init /\ [][Next]_vars
View == <<b, n>>

\* write the behaviour out: in simulation at full length, exhaustively at every new state
Emit == (Mode = "bfs" \/ Len(hist) = Depth) => PrintT(<<"PATH", hist>>)
=============================================================================
