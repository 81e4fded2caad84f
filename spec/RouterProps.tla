----------------------------- MODULE RouterProps -----------------------------
(* What users of a router socket wrapper rely on (C18), over the events      *)
(*   psend  peer sends the frames f to the wrapper                           *)
(*   brecv  the wrapper's receive_message yields identity who and frames f   *)
(*   bsend  send_message is called with identity who and frames f            *)
(*   precv  peer receives the frames f                                       *)
(*   settled  everybody had all the time needed                              *)
(* up: identities of the peers that are connected.                           *)
EXTENDS Integers, Sequences, FiniteSets

InitX == [up |-> {}, in |-> << >>, out |-> << >>]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE << >>
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

EvolveX(x, e) ==
    CASE e.k = "up" -> [x EXCEPT !.up = @ \cup {e.who}]
      [] e.k = "down" -> [x EXCEPT !.up = @ \ {e.who}, !.in = Put(@, e.who, << >>), !.out = Put(@, e.who, << >>)]
      [] e.k = "psend" -> [x EXCEPT !.in = Put(@, e.who, Append(At(@, e.who), e.f))]
      [] e.k = "brecv" -> [x EXCEPT !.in = IF At(@, e.who) = << >> THEN @ ELSE Put(@, e.who, Tail(At(@, e.who)))]
      [] e.k = "bsend" -> IF e.who \in x.up /\ e.f # << >> THEN [x EXCEPT !.out = Put(@, e.who, Append(At(@, e.who), e.f))] ELSE x
      [] e.k = "precv" -> [x EXCEPT !.out = IF At(@, e.who) = << >> THEN @ ELSE Put(@, e.who, Tail(At(@, e.who)))]
      [] OTHER -> x

ViolatedX(x, e) ==
    CASE e.k = "brecv" -> At(x.in, e.who) = << >> \/ Head(At(x.in, e.who)) # e.f
      [] e.k = "precv" -> At(x.out, e.who) = << >> \/ Head(At(x.out, e.who)) # e.f
      [] e.k = "settled" -> \E w \in x.up : At(x.in, w) # << >> \/ At(x.out, w) # << >>
      [] e.k = "crash" -> TRUE
      [] OTHER -> FALSE
=============================================================================
