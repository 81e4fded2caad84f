------------------------------ MODULE Notifier ------------------------------
(* Operational model of the status notifier: one notification at a time, up  *)
(* to four attempts with waits of 1, 2, 4 (and 8) seconds after failures.    *)
(* Every combination of outcomes is explored; with Mode = "gen" the outcomes *)
(* chosen by the frontend are printed as scripts for the real notifier.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, Mode
P == INSTANCE NotifierProps
VARIABLES queue, cur, left, delay, clock, n, s, broken, hist
vars == <<queue, cur, left, delay, clock, n, s, broken, hist>>
Judge(e) == s' = P!EvolveN(s, e) /\ broken' = (broken \/ P!ViolatedN(s, e))
Init == queue = << >> /\ cur = << >> /\ left = 0 /\ delay = 1000 /\ clock = 0 /\ n = 0 /\ s = P!InitN /\ broken = FALSE /\ hist = << >>
Arrive == /\ n < Max /\ n' = n + 1 /\ queue' = Append(queue, n + 1)
          /\ UNCHANGED <<cur, left, delay, clock, s, broken, hist>>
Begin == /\ cur = << >> /\ queue # << >> /\ cur' = <<Head(queue)>> /\ queue' = Tail(queue) /\ left' = 4 /\ delay' = 1000
         /\ Judge([k |-> "notify", n |-> Head(queue)])
         /\ hist' = Append(hist, << >>)
         /\ UNCHANGED <<clock, n>>
Attempt(ok) == /\ cur # << >> /\ left > 0
               /\ Judge([k |-> "try", n |-> cur[1], ok |-> ok, at |-> clock])
               /\ left' = IF ok THEN 0 ELSE left - 1
               /\ clock' = IF ok THEN clock ELSE clock + delay
               /\ delay' = IF ok THEN delay ELSE delay * 2
               /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, IF ok THEN 1 ELSE 0)]
               /\ UNCHANGED <<queue, cur, n>>
Finish == /\ cur # << >> /\ left = 0 /\ cur' = << >> /\ Judge([k |-> "done"])
          /\ UNCHANGED <<queue, left, delay, clock, n, hist>>
Next == Arrive \/ Begin \/ (\E ok \in BOOLEAN : Attempt(ok)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Attempt(TRUE) \/ Attempt(FALSE) \/ Finish)
Holds == ~broken
AllDone == []<>(cur = << >>)
Emit == (Mode = "gen" /\ n = Max /\ queue = << >> /\ cur = << >>) => PrintT(<<"PATH", hist>>)
=============================================================================
