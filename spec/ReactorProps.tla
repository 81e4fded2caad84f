---------------------------- MODULE ReactorProps ----------------------------
(* What users of the reactor (src/reactor) rely on, over observable events:  *)
(*   put   src puts a message for `dest` (src = "ext": a peer sends it to    *)
(*         the socket dest; otherwise the handler src calls `respond`)       *)
(*   got   handler h is called with a message of origin `dest`               *)
(*   out   a peer receives a message from socket `dest`                      *)
(*   timer handler h is told that `ms` milliseconds passed (at: real time)   *)
(*   settled  all the handlers not in `held` had all the time they needed    *)
(*   init / term / ended  the loop initialises its sockets / is asked to end *)
(*         / has ended (ok: in time)                                         *)
(* A message is [id, f]: its number and its frames (identity included).      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Handlers,      \* names
          IsAsync(_),
          Subs(_),       \* origins a handler subscribes to
          Sockets        \* names

Msgs == << >>
InitR == [pend  |-> << >>,   \* <<receiver, src, dest>> -> messages put and not yet received
          n     |-> << >>,   \* <<h, src, dest>> -> number of messages handler h got
          term  |-> FALSE,
          init  |-> -1,      \* real time when the sockets were initialised
          tsum  |-> << >>,   \* h -> [s: sum of announced times, at: time of the last one, s1, at1: those of the first]
          bad   |-> {}]

At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* who must receive a message for dest put by src?  A peer's message goes to the handlers of that origin; a
\* handler's response goes to the peers of the socket of that name or else to the handlers of that origin
Receivers(src, dest) ==
    IF src # "ext" /\ dest \in Sockets THEN {"peer"} ELSE {h \in Handlers : dest \in Subs(h)}

RECURSIVE PutAll(_, _, _, _, _)
PutAll(p, R, src, dest, m) ==
    IF R = {} THEN p
    ELSE LET h == CHOOSE x \in R : TRUE
             k == <<h, src, dest>> IN
         PutAll(Put(p, k, Append(At(p, k, << >>), m)), R \ {h}, src, dest, m)

Slack == 3      \* milliseconds lost to rounding
OnTimer(r, e) ==
    LET t == At(r.tsum, e.h, [s |-> 0, at |-> -1, s1 |-> 0, at1 |-> 0])
        s == t.s + e.ms
        first == t.at < 0 IN
    [r EXCEPT !.tsum = Put(@, e.h, IF first THEN [s |-> s, at |-> e.at, s1 |-> s, at1 |-> e.at]
                                   ELSE [t EXCEPT !.s = s, !.at = e.at])]

\* C20, at a timer event: never more than what passed since the loop started, never less than what had passed
\* by the previous timer event; and timer events keep coming
TimerBad(r, e) ==
    /\ e.k = "timer"
    /\ LET t == At(r.tsum, e.h, [s |-> 0, at |-> -1, s1 |-> 0, at1 |-> 0])
           s == t.s + e.ms IN
       \/ e.ms < 0
       \/ ~IsAsync(e.h) /\ s > e.at - r.init + Slack
       \/ ~IsAsync(e.h) /\ t.at >= 0 /\ s - t.s1 < t.at - t.at1 - Slack
IdleBad(r, e) == e.k = "idle" /\ e.gap > e.allowed

Key(e) == <<IF e.k = "out" THEN "peer" ELSE e.h, e.src, e.dest>>
Receives(e) == e.k \in {"got", "out"}

\* C17, at a received message: it is the oldest one put on that way that has not been received yet
DeliveryBad(r, e) ==
    /\ Receives(e)
    /\ LET q == At(r.pend, Key(e), << >>) IN q = << >> \/ Head(q) # e.m
\* ... at a settled point nothing is left
LeftOver(r, held) == {k \in DOMAIN r.pend : r.pend[k] # << >> /\ k[1] \notin held}
SettledBad(r, e) == e.k = "settled" /\ LeftOver(r, {e.held[i] : i \in 1..Len(e.held)}) # {}
\* ... and at the end all the handlers of an origin got the same messages, and the loop ended in time
EndBad(r, e) ==
    /\ e.k = "ended"
    /\ \/ ~e.ok
       \/ \E h, g \in Handlers : \E k \in DOMAIN r.n :
            k[1] = h /\ k[2] = "ext" /\ k[3] \in Subs(g) /\ At(r.n, <<g, k[2], k[3]>>, 0) # r.n[k]

EvolveR(r, e) ==
    CASE e.k = "put" -> [r EXCEPT !.pend = PutAll(@, Receivers(e.src, e.dest), e.src, e.dest, e.m)]
      [] Receives(e) -> LET k == Key(e)
                            q == At(r.pend, k, << >>) IN
                        [r EXCEPT !.pend = IF q = << >> THEN @ ELSE Put(@, k, Tail(q)),
                                  !.n = Put(@, k, At(@, k, 0) + 1)]
      [] e.k = "timer" -> OnTimer(r, e)
      [] e.k = "init" -> [r EXCEPT !.init = e.at]
      [] e.k = "term" -> [r EXCEPT !.term = TRUE]
      [] OTHER -> r

ViolatedR(p, r, e) ==
    CASE p = "C17" -> DeliveryBad(r, e) \/ SettledBad(r, e) \/ EndBad(r, e) \/ e.k = "crash"
      [] p = "C20" -> TimerBad(r, e) \/ IdleBad(r, e) \/ e.k = "crash"
=============================================================================
