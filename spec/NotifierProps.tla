---------------------------- MODULE NotifierProps ----------------------------
(* What the frontend relies on (C19), over the events                        *)
(*   notify  a notification is handed to the notifier: n = [path, fields,    *)
(*           auth], what an attempt for it has to look like                  *)
(*   try     an HTTP request reaches the frontend at time `at` (ms) and is   *)
(*           answered with success (ok) or not                               *)
(*   done    the notifier is ready for the next notification                 *)
EXTENDS Integers, Sequences, FiniteSets
Tries == 4
Wait == <<1000, 2000, 4000>>     \* before the 2nd, 3rd and 4th attempt
Noise == 900                     \* what an attempt itself may take

InitN == [cur |-> << >>, tries |-> 0, ok |-> FALSE, at |-> 0]
EvolveN(s, e) ==
    CASE e.k = "notify" -> [cur |-> <<e.n>>, tries |-> 0, ok |-> FALSE, at |-> 0]
      [] e.k = "try" -> [s EXCEPT !.tries = @ + 1, !.ok = e.ok, !.at = e.at]
      [] e.k = "done" -> InitN
      [] OTHER -> s

ViolatedN(s, e) ==
    CASE e.k = "notify" -> s.cur # << >>
      [] e.k = "try" ->
            \/ s.cur = << >> \/ s.ok \/ s.tries >= Tries        \* nothing to send, or sent, or given up
            \/ s.cur # << >> /\ e.n # s.cur[1]                  \* not what was to be sent
            \/ s.tries > 0 /\ s.tries < Tries /\ (e.at - s.at < Wait[s.tries] \/ e.at - s.at > Wait[s.tries] + Noise)
      [] e.k = "done" -> s.cur = << >> \/ (~s.ok /\ s.tries < Tries)
      [] e.k = "crash" -> TRUE
      [] OTHER -> FALSE
=============================================================================
