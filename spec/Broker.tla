------------------------------- MODULE Broker -------------------------------
(* Operational model of the broker: the handler of client, worker and timer  *)
(* events (broker_handler), the worker registry and both queue managers.     *)
(* Step(b, in, perm) is the reaction to input `in` in state b; perm resolves *)
(* the one choice the implementation leaves open (which of several suitable  *)
(* idle workers the single-queue manager takes: the first one in perm).      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANT Sat(_, _)

Monitor == "recodex-monitor"
LimitMsg == "limit"
MinIdx(S) == CHOOSE x \in S : \A y \in S : x <= y

InitBroker(cfg) == [
    cfg  |-> cfg,
    reg  |-> << >>,         \* identities in order of registration
    w    |-> << >>,         \* identity -> [cap, live, t, cur]; cur is << >> or <<job>>
    lru  |-> << >>,         \* multi: least recently used worker first
    q    |-> << >>,         \* multi: identity -> queue of jobs
    sq   |-> << >>,         \* single: queue of jobs
    fz   |-> FALSE,
    ev   |-> 0,
    fa   |-> 0,
    snap |-> [q |-> 0, wc |-> 0, idle |-> 0, jip |-> -1]]

Job(id, req, pay) == [id |-> id, req |-> req, pay |-> pay, full |-> TRUE, fails |-> 0]
Foreign(id) == [id |-> id, req |-> 0, pay |-> << >>, full |-> FALSE, fails |-> 0]

Known(b, id) == id \in DOMAIN b.w
Idle(b, id) == b.w[id].cur = << >>
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

\* messages
ToClient(c, f) == [to |-> "c", who |-> c, f |-> f]
ToWorker(id, f) == [to |-> "w", who |-> id, f |-> f]
ToMonitor(id, s) == [to |-> "m", who |-> Monitor, f |-> <<id, s>>]
Report(id, s, m) == [to |-> "n", who |-> "", t |-> "job-status", id |-> id, s |-> s, m |-> m]
ErrorNote == [to |-> "n", who |-> "", t |-> "error", id |-> "", s |-> "", m |-> ""]
SendJob(id, j) == ToWorker(id, <<"eval", j.id>> \o j.pay)

\* the part of the state statistics are taken from
StatsOf(b) == [wfm |-> TRUE, ev |-> b.ev, fa |-> b.fa, fr |-> IF b.fz THEN 1 ELSE 0,
               q |-> b.snap.q, wc |-> b.snap.wc, idle |-> b.snap.idle, jip |-> b.snap.jip]

----------------------------------------------------------------------------
(* queue managers *)
SetCur(b, id, c) == [b EXCEPT !.w[id].cur = c]

\* -> [b, ok, to]: to = << >> or <<worker the job is to be sent to>>
Enqueue(b, j, perm) ==
    IF b.cfg.mgr = "multi"
    THEN LET C == {i \in 1..Len(b.lru) : Sat(b.w[b.lru[i]].cap, j.req)} IN
         IF C = {} THEN [b |-> b, ok |-> FALSE, to |-> << >>]
         ELSE LET x == b.lru[MinIdx(C)]
                  c == [b EXCEPT !.lru = Append(Without(@, x), x)] IN
              IF Idle(b, x) THEN [b |-> SetCur(c, x, <<j>>), ok |-> TRUE, to |-> <<x>>]
              ELSE [b |-> [c EXCEPT !.q[x] = Append(@, j)], ok |-> TRUE, to |-> << >>]
    ELSE LET C == {i \in 1..Len(perm) : Known(b, perm[i]) /\ Idle(b, perm[i]) /\ Sat(b.w[perm[i]].cap, j.req)} IN
         IF C # {} THEN LET x == perm[MinIdx(C)] IN [b |-> SetCur(b, x, <<j>>), ok |-> TRUE, to |-> <<x>>]
         ELSE IF \E x \in DOMAIN b.w : Sat(b.w[x].cap, j.req)
         THEN [b |-> [b EXCEPT !.sq = Append(@, j)], ok |-> TRUE, to |-> << >>]
         ELSE [b |-> b, ok |-> FALSE, to |-> << >>]

\* give the (free) worker its next job: -> [b, got]
Assign(b, x) ==
    IF b.cfg.mgr = "multi"
    THEN IF b.q[x] = << >> THEN [b |-> b, got |-> << >>]
         ELSE [b |-> SetCur([b EXCEPT !.q[x] = Tail(@)], x, <<Head(b.q[x])>>), got |-> <<Head(b.q[x])>>]
    ELSE LET C == {i \in 1..Len(b.sq) : Sat(b.w[x].cap, b.sq[i].req)} IN
         IF C = {} THEN [b |-> b, got |-> << >>]
         ELSE LET i == MinIdx(C) IN
              [b |-> SetCur([b EXCEPT !.sq = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], x, <<b.sq[i]>>),
               got |-> <<b.sq[i]>>]

\* remove a worker: -> [b, lost]: the job it was running and those that cannot be processed without it
Terminate(b, x) ==
    LET c == [b EXCEPT !.reg = Without(@, x), !.w = Del(@, x), !.lru = Without(@, x), !.q = Del(@, x)] IN
    IF b.cfg.mgr = "multi" THEN [b |-> c, lost |-> b.w[x].cur \o b.q[x]]
    ELSE LET Ok(j) == \E y \in DOMAIN c.w : Sat(c.w[y].cap, j.req) IN
         [b |-> [c EXCEPT !.sq = SelectSeq(@, Ok)], lost |-> b.w[x].cur \o SelectSeq(b.sq, LAMBDA j : ~Ok(j))]

\* register a worker: -> [b, got]
Register(b, x, cap, cur) ==
    LET c == [b EXCEPT !.reg = Append(@, x),
                       !.w = Upd(@, x, [cap |-> cap, live |-> b.cfg.live, t |-> 0, cur |-> cur]),
                       !.lru = IF b.cfg.mgr = "multi" THEN <<x>> \o @ ELSE @,
                       !.q = IF b.cfg.mgr = "multi" THEN Upd(@, x, << >>) ELSE @] IN
    IF b.cfg.mgr = "single" /\ cur = << >> THEN Assign(c, x) ELSE [b |-> c, got |-> << >>]

----------------------------------------------------------------------------
(* handler *)
AtMost(b, j) == j.fails < b.cfg.maxf       \* may it be tried once more?

\* try to place a job again: s = [b, out], failing yields monitor FAILED and ok = FALSE
Reassign(s, j, perm) ==
    LET r == Enqueue(s.b, j, perm) IN
    IF ~r.ok THEN [b |-> r.b, out |-> Append(s.out, ToMonitor(j.id, "FAILED")), ok |-> FALSE]
    ELSE [b |-> r.b, ok |-> TRUE,
          out |-> IF r.to = << >> THEN s.out ELSE Append(s.out, SendJob(r.to[1], j))]

\* jobs of a worker that is gone
Abandon(s, lost, perm) ==
    LET One(a, j) ==
            IF ~j.full
            THEN [a EXCEPT !.out = @ \o <<Report(j.id, "FAILED", "gone"), ToMonitor(j.id, "FAILED")>>]
            ELSE IF ~AtMost(a.b, j)
            THEN [a EXCEPT !.out = @ \o <<Report(j.id, "FAILED", LimitMsg), ToMonitor(j.id, "FAILED")>>]
            ELSE LET r == Reassign(a, j, perm) IN
                 IF r.ok THEN [b |-> r.b, out |-> Append(r.out, ToMonitor(j.id, "ABORTED")), late |-> a.late]
                 ELSE [b |-> r.b, out |-> r.out, late |-> Append(a.late, Report(j.id, "FAILED", "gone"))]
        f == FoldLeft(One, [b |-> s.b, out |-> s.out, late |-> << >>], lost) IN
    [b |-> f.b, out |-> f.out \o f.late]

FailCur(cur) == IF cur = << >> THEN << >> ELSE <<[cur[1] EXCEPT !.fails = @ + 1]>>

HEval(b, in, perm) ==
    IF b.fz THEN [b |-> b, out |-> <<ToClient(in.c, <<"ack">>), ToClient(in.c, <<"reject", "frozen">>)>>]
    ELSE LET r == Enqueue(b, Job(in.id, in.req, in.pay), perm) IN
         [b |-> r.b,
          out |-> <<ToClient(in.c, <<"ack">>)>>
                  \o (IF r.to = << >> THEN << >> ELSE <<SendJob(r.to[1], Job(in.id, in.req, in.pay))>>)
                  \o (IF r.ok THEN <<ToClient(in.c, <<"accept">>)>>
                      ELSE <<ToClient(in.c, <<"reject", "nobody">>), ToMonitor(in.id, "FAILED")>>)]

HInit(b, in, perm) ==
    IF ~in.wf THEN [b |-> b, out |-> << >>]
    ELSE IF Known(b, in.w) /\ b.w[in.w].cap = in.cap THEN [b |-> b, out |-> << >>]
    ELSE LET again == Known(b, in.w)
             old == IF again THEN b.w[in.w].cur ELSE << >>
             goes == old # << >> /\ in.hasdecl /\ old[1].id = in.decl
             cur == IF goes THEN old ELSE IF in.hasdecl THEN <<Foreign(in.decl)>> ELSE << >>
             b1 == IF ~again THEN b ELSE SetCur(b, in.w, IF goes THEN << >> ELSE FailCur(old))
             t == IF again THEN Terminate(b1, in.w) ELSE [b |-> b, lost |-> << >>]
             r == Register(t.b, in.w, in.cap, cur)
             out == (IF again THEN <<ErrorNote>> ELSE << >>)
                    \o (IF r.got = << >> THEN << >> ELSE <<SendJob(in.w, r.got[1])>>) IN
         Abandon([b |-> r.b, out |-> out], t.lost, perm)

Next1(s, x) ==
    LET r == Assign(s.b, x) IN
    [b |-> r.b, out |-> IF r.got = << >> THEN s.out ELSE Append(s.out, SendJob(x, r.got[1]))]

HDone(b, in, perm) ==
    LET ignore == [b |-> b, out |-> << >>] IN
    IF ~Known(b, in.w) \/ in.n < 3 THEN ignore
    ELSE IF Idle(b, in.w) THEN ignore
    ELSE LET j == b.w[in.w].cur[1]
             free == SetCur(b, in.w, << >>) IN
    IF j.id # in.id THEN ignore
    ELSE IF in.st = "OK"
    THEN Next1([b |-> [free EXCEPT !.ev = @ + 1], out |-> <<Report(j.id, "OK", "")>>], in.w)
    ELSE IF in.n # 4 \/ in.st \notin {"FAILED", "INTERNAL_ERROR"} THEN ignore
    ELSE IF in.st = "FAILED"
    THEN Next1([b |-> [free EXCEPT !.fa = @ + 1], out |-> <<Report(j.id, "FAILED", in.msg)>>], in.w)
    ELSE LET c == [free EXCEPT !.fa = @ + 1]
             k == [j EXCEPT !.fails = @ + 1]
             s == IF ~j.full THEN [b |-> c, out |-> <<Report(j.id, "FAILED", "foreign")>>]
                  ELSE IF ~AtMost(c, k)
                  THEN [b |-> c, out |-> <<Report(j.id, "FAILED", LimitMsg), ToMonitor(j.id, "FAILED")>>]
                  ELSE LET r == Reassign([b |-> c, out |-> << >>], k, perm) IN
                       [b |-> r.b, out |-> IF r.ok THEN r.out ELSE Append(r.out, Report(j.id, "FAILED", "nobody"))] IN
         IF Idle(s.b, in.w) THEN Next1(s, in.w) ELSE s

HTick(b, in, perm) ==
    LET Late(x) == b.w[x].t + in.ms > b.cfg.ival
        Left(x) == IF Late(x) /\ b.w[x].live > 0 THEN b.w[x].live - 1 ELSE b.w[x].live
        dead == SelectSeq(b.reg, LAMBDA x : Late(x) /\ Left(x) = 0)
        b1 == [b EXCEPT !.w = [x \in DOMAIN b.w |->
                    [b.w[x] EXCEPT !.live = Left(x), !.t = IF Late(x) THEN 0 ELSE @ + in.ms]]]
        Kill(a, x) == LET t == Terminate(SetCur(a.b, x, FailCur(a.b.w[x].cur)), x) IN
                      [b |-> t.b, lost |-> Append(a.lost, t.lost)]
        k == FoldLeft(Kill, [b |-> b1, lost |-> << >>], dead)
        s == FoldLeft(LAMBDA a, l : Abandon(a, l, perm), [b |-> k.b, out |-> << >>], k.lost)
        c == s.b
        idle == Cardinality({x \in DOMAIN c.w : Idle(c, x)})
        queued == IF c.cfg.mgr = "single" THEN Len(c.sq)
                  ELSE FoldLeft(LAMBDA n, x : n + Len(c.q[x]), 0, c.reg) IN
    [b |-> [c EXCEPT !.snap = [q |-> queued, wc |-> Len(c.reg), idle |-> idle, jip |-> Len(c.reg) - idle]],
     out |-> s.out]

Touch(b, in) ==
    IF in.k \in {"init", "done", "ping", "prog", "wunk"} /\ Known(b, in.w)
    THEN [b EXCEPT !.w[in.w].live = b.cfg.live, !.w[in.w].t = 0] ELSE b

Handle(b, in, perm) ==
    CASE in.k = "eval" -> HEval(b, in, perm)
      [] in.k = "evalbad" -> [b |-> b, out |-> <<ToClient(in.c, <<"ack">>)>>]
      [] in.k = "stats" -> [b |-> b, out |-> <<[to |-> "c", who |-> in.c, f |-> <<"stats">>, st |-> StatsOf(b)]>>]
      [] in.k = "freeze" -> [b |-> [b EXCEPT !.fz = TRUE], out |-> <<ToClient(in.c, <<"ack">>)>>]
      [] in.k = "unfreeze" -> [b |-> [b EXCEPT !.fz = FALSE], out |-> <<ToClient(in.c, <<"ack">>)>>]
      [] in.k = "init" -> HInit(b, in, perm)
      [] in.k = "done" -> HDone(b, in, perm)
      [] in.k = "ping" -> [b |-> b, out |-> <<ToWorker(in.w, IF Known(b, in.w) THEN <<"pong">> ELSE <<"intro">>)>>]
      [] in.k = "prog" -> [b |-> b, out |-> <<[to |-> "m", who |-> Monitor, f |-> in.f]>>]
      [] in.k = "tick" -> HTick(b, in, perm)
      [] OTHER -> [b |-> b, out |-> << >>]

RegOf(b) == b.reg
CurOf(b) == [i \in 1..Len(b.reg) |-> IF Idle(b, b.reg[i]) THEN "" ELSE b.w[b.reg[i]].cur[1].id]

\* the event an observer sees, and the new state
Step(b, in, perm) ==
    LET s == Handle(Touch(b, in), in, perm) IN
    [b |-> s.b,
     e |-> [in |-> in, out |-> s.out, reg |-> RegOf(s.b), cur |-> CurOf(s.b), st |-> StatsOf(s.b), x |-> ""]]
=============================================================================
