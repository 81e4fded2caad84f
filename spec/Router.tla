------------------------------- MODULE Router -------------------------------
(* Frame-level model of a router socket and of the wrapper around it: the    *)
(* first frame of an outgoing message selects the peer, frames marked "more" *)
(* continue the message, messages for unknown peers are swallowed whole.     *)
(* The wrapper hands over identity and data frame by frame.  Composed with   *)
(* RouterProps.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, MaxFrames
P == INSTANCE RouterProps
Peers == {"p", "q"}
Ids == Peers \cup {"nobody"}
Bodies == UNION {[1..k -> {"", "p"}] : k \in 0..MaxFrames}

VARIABLES wire,    \* peer -> messages on their way to it
          inbox,   \* messages on their way to the wrapper: <<peer, frames>>
          cur,     \* message being written: << >> or [to, f]
          job,     \* frames the wrapper still has to write: sequence of [b, more]
          n, x, broken
vars == <<wire, inbox, cur, job, n, x, broken>>
Judge(e) == x' = P!EvolveX(x, e) /\ broken' = (broken \/ P!ViolatedX(x, e))

Init == /\ wire = [p \in Peers |-> << >>] /\ inbox = << >> /\ cur = << >> /\ job = << >> /\ n = 0
        /\ x = [P!InitX EXCEPT !.up = Peers] /\ broken = FALSE
\* send_message: nothing at all for a message without frames
BSend(id, f) ==
    /\ job = << >> /\ n < Max /\ n' = n + 1
    /\ job' = IF f = << >> THEN << >>
              ELSE <<[b |-> id, more |-> TRUE]>> \o [i \in 1..Len(f) |-> [b |-> f[i], more |-> i < Len(f)]]
    /\ Judge([k |-> "bsend", who |-> id, f |-> f])
    /\ UNCHANGED <<wire, inbox, cur>>
\* the socket takes one frame
Frame ==
    /\ job # << >> /\ job' = Tail(job)
    /\ LET c == Head(job)
           m == IF cur = << >> THEN [to |-> c.b, f |-> << >>] ELSE [cur EXCEPT !.f = Append(@, c.b)] IN
       IF c.more THEN cur' = m /\ wire' = wire
       ELSE /\ cur' = << >>
            /\ wire' = IF m.to \in Peers THEN [wire EXCEPT ![m.to] = Append(@, m.f)] ELSE wire
    /\ UNCHANGED <<inbox, n, x, broken>>
PRecv(p) == /\ wire[p] # << >> /\ wire' = [wire EXCEPT ![p] = Tail(@)]
            /\ Judge([k |-> "precv", who |-> p, f |-> Head(wire[p])]) /\ UNCHANGED <<inbox, cur, job, n>>
PSend(p, f) == /\ n < Max /\ n' = n + 1 /\ f # << >> /\ inbox' = Append(inbox, <<p, f>>)
               /\ Judge([k |-> "psend", who |-> p, f |-> f]) /\ UNCHANGED <<wire, cur, job>>
BRecv == /\ inbox # << >> /\ inbox' = Tail(inbox)
         /\ Judge([k |-> "brecv", who |-> Head(inbox)[1], f |-> Head(inbox)[2]]) /\ UNCHANGED <<wire, cur, job, n>>
Quiet == inbox = << >> /\ job = << >> /\ \A p \in Peers : wire[p] = << >>
Next == (\E id \in Ids, f \in Bodies : BSend(id, f)) \/ Frame \/ (\E p \in Peers : PRecv(p))
        \/ (\E p \in Peers, f \in Bodies : PSend(p, f)) \/ BRecv
Spec == Init /\ [][Next]_vars
Holds == ~broken
Settled == Quiet => ~P!ViolatedX(x, [k |-> "settled"]) /\ cur = << >>
=============================================================================
