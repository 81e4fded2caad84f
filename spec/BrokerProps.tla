----------------------------- MODULE BrokerProps -----------------------------
(* What the broker owes its clients, workers, monitor and frontend, stated   *)
(* over observable events only.                                              *)
(*                                                                           *)
(* An event is one handled input (a message from a client or a worker, or a  *)
(* timer event) together with everything the broker emitted while handling   *)
(* it.  The observer state `o` is the abstract state every observer of these *)
(* events can keep: who is registered with which capabilities, which job is  *)
(* where, how often it was tried.  Evolve(o, e) is the observer's step;      *)
(* Violated(p, o, e) says whether event e, seen in state o, breaks property  *)
(* p.  The module is used twice: BrokerMC composes it with the operational   *)
(* model of the broker (Broker.tla), BrokerTrace evaluates it on events      *)
(* recorded from the real code.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Sat(_, _)      \* Sat(cap, req): capability number cap satisfies requirement number req

NoJob == 0
Phantom == 1000000      \* "busy with something the observer cannot attribute"

MaxOf2(a, b) == IF a > b THEN a ELSE b
Only(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

InitObs(cfg) == [
    cfg   |-> cfg,               \* [mgr, live, ival, maxf]
    W     |-> << >>,             \* registered workers: identity -> [cap, cur, cid, rereg, miss, t]
    J     |-> << >>,             \* jobs not yet reported: token -> record
    n     |-> 1,                 \* next token
    clk   |-> 1,                 \* event counter (order of entering the queue)
    fz    |-> FALSE,             \* frozen?
    ok    |-> 0,                 \* results OK so far
    fl    |-> 0,                 \* failed results so far
    snap  |-> [q |-> 0, wc |-> 0, idle |-> 0, jip |-> 0, any |-> FALSE],
    reg   |-> << >>,             \* registered identities in order of registration
    cur   |-> << >>,             \* their current jobs as the broker sees them (public projection)
    rej   |-> {},                \* ids rejected and not accepted since
    rr    |-> TRUE,              \* multi: round-robin prediction still agrees with the observations
    lru   |-> << >>,             \* multi: workers, least recently given a job first
    pq    |-> << >>              \* multi: identity -> jobs waiting in its queue (prediction)
]

----------------------------------------------------------------------------
(* reading events *)
Outs(e, Test(_)) == SelectSeq(e.out, Test)
IsDispatch(m) == m.to = "w" /\ Len(m.f) > 0 /\ m.f[1] = "eval"
IsReport(m) == m.to = "n" /\ m.t = "job-status"
IsError(m) == m.to = "n" /\ m.t = "error"
IsMon(m) == m.to = "m"
IsClient(m) == m.to = "c"
Dispatches(e) == Outs(e, IsDispatch)
Reports(e) == Outs(e, IsReport)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
DispId(m) == IF Len(m.f) > 1 THEN m.f[2] ELSE ""

WorkerKinds == {"init", "done", "ping", "prog", "wunk"}
FromWorker(e) == e.in.k \in WorkerKinds
Registered(o) == DOMAIN o.W
Busy(o, w) == o.W[w].cur # NoJob
Accepted(e) == e.in.k = "eval" /\ \E i \in 1..Len(e.out) :
                    e.out[i].to = "c" /\ e.out[i].f = <<"accept">>

\* the result a `done` message carries, if it is one the sender may report now
ValidDone(o, e) ==
    /\ e.in.k = "done"
    /\ e.in.w \in Registered(o)
    /\ Busy(o, e.in.w)
    /\ o.W[e.in.w].cid = e.in.id
    /\ \/ e.in.st = "OK" /\ e.in.n >= 3
       \/ e.in.st \in {"FAILED", "INTERNAL_ERROR"} /\ e.in.n = 4

Died(o, e) == IF e.in.k \in {"reset", "mark"} THEN {} ELSE Registered(o) \ RangeOf(e.reg)

\* an init that registers its sender anew: first registration, or changed capabilities
NewInit(o, e) ==
    /\ e.in.k = "init" /\ e.in.wf
    /\ e.in.w \in RangeOf(e.reg)
    /\ e.in.w \notin Registered(o) \/ o.W[e.in.w].cap # e.in.cap
Replaces(o, e) == NewInit(o, e) /\ e.in.w \in Registered(o)
\* ... in which the sender declares to be still running the job it had
Continues(o, e) == Replaces(o, e) /\ Busy(o, e.in.w) /\ e.in.hasdecl /\ e.in.decl = o.W[e.in.w].cid

\* workers whose (old) registration ended in this event
Gone(o, e) == Died(o, e) \cup (IF Replaces(o, e) THEN {e.in.w} ELSE {})

\* jobs whose running attempt ended in this event, with the reason
LostRunning(o, e) == {o.W[w].cur : w \in {v \in Gone(o, e) : Busy(o, v) /\ ~(Continues(o, e) /\ v = e.in.w)}}
                        \cap DOMAIN o.J
DoneJob(o, e) == IF ValidDone(o, e) /\ o.W[e.in.w].cur \in DOMAIN o.J THEN {o.W[e.in.w].cur} ELSE {}
FailedAttempt(o, e) ==
    LostRunning(o, e) \cup (IF ValidDone(o, e) /\ e.in.st = "INTERNAL_ERROR" THEN DoneJob(o, e) ELSE {})
Concluded(o, e) == IF ValidDone(o, e) /\ e.in.st # "INTERNAL_ERROR" THEN DoneJob(o, e) ELSE {}

FailsAfter(o, e, t) == o.J[t].fails + (IF t \in FailedAttempt(o, e) THEN 1 ELSE 0)
AtLimit(o, e, t) == FailsAfter(o, e, t) >= o.cfg.maxf
\* capabilities of the workers registered after the event
CapsAfter(o, e) == [w \in (Registered(o) \ Died(o, e)) \cup (IF NewInit(o, e) THEN {e.in.w} ELSE {}) |->
                        IF NewInit(o, e) /\ w = e.in.w THEN e.in.cap ELSE o.W[w].cap]
Capable(o, e, req) == {w \in DOMAIN CapsAfter(o, e) : Sat(CapsAfter(o, e)[w], req)}

Waiting(o) == {t \in DOMAIN o.J : o.J[t].st = "wait"}
Running(o) == {t \in DOMAIN o.J : o.J[t].st = "run"}

MinOrd(J, C) == CHOOSE x \in C : \A y \in C : J[x].ord < J[y].ord \/ (J[x].ord = J[y].ord /\ x <= y)
FirstNonEmpty(Cs) == LET I == {i \in 1..Len(Cs) : Cs[i] # {}} IN IF I = {} THEN {} ELSE Cs[MinOf(I)]

----------------------------------------------------------------------------
(* multi-queue prediction: where does a job go that is (re-)entered now?     *)
FirstSat(lru, caps, req) ==
    LET C == {i \in 1..Len(lru) : lru[i] \in DOMAIN caps /\ Sat(caps[lru[i]], req)} IN
    IF C = {} THEN "" ELSE lru[MinOf(C)]
MoveBack(lru, w) == Append(SelectSeq(lru, LAMBDA x : x # w), w)

\* jobs entering the queues in this event, in order
Entering(o, e) ==
    IF Accepted(e) THEN <<o.n>>
    ELSE IF ValidDone(o, e) /\ e.in.st = "INTERNAL_ERROR"
         THEN LET t == o.W[e.in.w].cur IN
              IF t \in DOMAIN o.J /\ ~o.J[t].orphan /\ ~AtLimit(o, e, t) THEN <<t>> ELSE << >>
    ELSE LET gone == SelectSeq(o.reg, LAMBDA w : w \in Gone(o, e))
             Of(w) == (IF o.W[w].cur \in LostRunning(o, e) THEN <<o.W[w].cur>> ELSE << >>)
                        \o (IF w \in DOMAIN o.pq THEN o.pq[w] ELSE << >>)
             all == FlattenSeq([i \in 1..Len(gone) |-> Of(gone[i])]) IN
         SelectSeq(all, LAMBDA t : t \in DOMAIN o.J /\ ~o.J[t].orphan /\ ~AtLimit(o, e, t)
                                     /\ Capable(o, e, o.J[t].req) # {})

\* fold over the entering jobs: p = [lru, busy, asg] with asg a sequence of <<token, worker, at once?>>
EnterOne(caps, reqOf(_), p, t) ==
    LET w == FirstSat(p.lru, caps, reqOf(t)) IN
    IF w = "" THEN p
    ELSE [lru |-> MoveBack(p.lru, w), busy |-> p.busy \cup {w},
          asg |-> Append(p.asg, [t |-> t, w |-> w, now |-> w \notin p.busy])]

Predict(o, e) ==
    LET caps == CapsAfter(o, e)
        reqOf(t) == IF t \in DOMAIN o.J THEN o.J[t].req ELSE e.in.req
        lru0 == SelectSeq(o.lru, LAMBDA x : x \notin Gone(o, e))
        lru1 == IF NewInit(o, e) THEN <<e.in.w>> \o lru0 ELSE lru0
        busy0 == {w \in DOMAIN caps :
                    IF NewInit(o, e) /\ w = e.in.w THEN e.in.hasdecl
                    ELSE o.W[w].cur # NoJob /\ ~(ValidDone(o, e) /\ w = e.in.w)} IN
    FoldLeft(LAMBDA p, t : EnterOne(caps, reqOf, p, t),
             [lru |-> lru1, busy |-> busy0, asg |-> << >>], Entering(o, e))

\* workers to which job t was sent in this event
SentTo(o, e, id) == {e.out[i].who : i \in {k \in 1..Len(e.out) : IsDispatch(e.out[k]) /\ DispId(e.out[k]) = id}}
IdOf(o, e, t) == IF t \in DOMAIN o.J THEN o.J[t].id ELSE e.in.id

----------------------------------------------------------------------------
(* the observer's step *)
NewJob(o, e) == [id |-> e.in.id, req |-> e.in.req, pay |-> e.in.pay, orphan |-> FALSE, st |-> "wait", w |-> "",
                 disp |-> 0, fails |-> 0, ord |-> o.clk, moved |-> FALSE, own |-> {}]
Orphan(e) == [id |-> e.in.decl, req |-> 0, pay |-> << >>, orphan |-> TRUE, st |-> "run", w |-> e.in.w,
              disp |-> 0, fails |-> 0, ord |-> 0, moved |-> FALSE, own |-> {}]

\* registrations and timers after the event, before anything the broker emits is taken into account
PreW(o, e) ==
    LET caps == CapsAfter(o, e)
        adopts == NewInit(o, e) /\ e.in.hasdecl /\ ~Continues(o, e) IN
    [w \in DOMAIN caps |->
       IF NewInit(o, e) /\ w = e.in.w
       THEN [cap |-> e.in.cap,
             cur |-> IF Continues(o, e) THEN o.W[w].cur ELSE IF adopts THEN o.n ELSE NoJob,
             cid |-> IF e.in.hasdecl THEN e.in.decl ELSE "",
             rereg |-> w \in Registered(o), miss |-> 0, t |-> 0]
       ELSE LET a == o.W[w]
                freed == ValidDone(o, e) /\ w = e.in.w
                b == [a EXCEPT !.cur = IF freed THEN NoJob ELSE @, !.cid = IF freed THEN "" ELSE @] IN
            IF FromWorker(e) /\ w = e.in.w THEN [b EXCEPT !.miss = 0, !.t = 0]
            ELSE IF e.in.k = "tick"
            THEN IF b.t + e.in.ms > o.cfg.ival THEN [b EXCEPT !.miss = @ + 1, !.t = 0]
                 ELSE [b EXCEPT !.t = @ + e.in.ms]
            ELSE b]

NewTokens(o, e) ==
    IF Accepted(e) \/ (NewInit(o, e) /\ e.in.hasdecl /\ ~Continues(o, e)) THEN {o.n} ELSE {}

\* jobs after the event, before anything the broker emits is taken into account
PreJ(o, e) ==
    LET failed == FailedAttempt(o, e)
        concl == Concluded(o, e)
        newtok == NewTokens(o, e)
        moved == LostRunning(o, e) \cup
                   (IF o.cfg.mgr = "multi" /\ Gone(o, e) # {}
                    THEN {t \in Waiting(o) : o.J[t].own \cap Gone(o, e) # {}}
                    \* single: only jobs that none of the others can take leave the queue (and may re-enter)
                    ELSE IF o.cfg.mgr = "single" /\ Gone(o, e) # {}
                    THEN {t \in Waiting(o) : \A w \in Registered(o) \ Gone(o, e) : ~Sat(o.W[w].cap, o.J[t].req)}
                    ELSE {}) IN
    [t \in DOMAIN o.J \cup newtok |->
       IF t \in newtok THEN (IF Accepted(e) THEN NewJob(o, e) ELSE Orphan(e))
       ELSE LET j == o.J[t] IN
            [j EXCEPT !.st = IF t \in failed THEN "wait" ELSE IF t \in concl THEN "over" ELSE @,
                      !.w = IF t \in failed THEN "" ELSE @,
                      !.fails = IF t \in failed THEN @ + 1 ELSE @,
                      !.moved = @ \/ t \in moved,
                      !.ord = IF t \in failed \/ (t \in moved /\ j.st = "wait") THEN o.clk ELSE @]]

\* effect of one emitted message on s = [J, W, log]; the log remembers, for every report and dispatch, the job it
\* refers to and the situation in which it was emitted.  (Job ids need not be unique.)
Emit(o, e, pred, s, m) ==
    LET entering == FailedAttempt(o, e) \cup NewTokens(o, e)
        Of(id) == {t \in DOMAIN s.J : s.J[t].id = id} IN
    IF IsReport(m)
    THEN LET C == Of(m.id)
             Cs == FirstNonEmpty(<<{t \in C : s.J[t].st = "over"},
                                   {t \in C \cap FailedAttempt(o, e) : s.J[t].orphan},
                                   {t \in C \cap FailedAttempt(o, e) : AtLimit(o, e, t)}, C \cap FailedAttempt(o, e),
                                   {t \in C : s.J[t].st = "wait"}, C>>)
             t == IF Cs = {} THEN NoJob ELSE MinOrd(s.J, Cs) IN
         [J |-> IF t = NoJob THEN s.J ELSE Only(s.J, DOMAIN s.J \ {t}), W |-> s.W,
          log |-> Append(s.log, [m |-> m, t |-> t, J |-> s.J, W |-> s.W])]
    ELSE IF IsDispatch(m)
    THEN LET C0 == {t \in Of(DispId(m)) : s.J[t].st = "wait"}
             C1 == {t \in C0 : t \notin FailedAttempt(o, e) \/ ~AtLimit(o, e, t)}
             C == IF C1 # {} THEN C1 ELSE C0
             \* a worker that registers is first given what was waiting already
             old == IF e.in.k = "init" /\ m.who = e.in.w THEN C \ entering ELSE {}
             inq == IF m.who \in DOMAIN o.pq THEN RangeOf(o.pq[m.who]) ELSE {}
             given == {pred.asg[i].t : i \in {k \in 1..Len(pred.asg) : pred.asg[k].w = m.who /\ pred.asg[k].now}}
             Cs == FirstNonEmpty(<<C \cap given, C \cap inq, old, C \cap entering, C, Of(DispId(m))>>)
             \* of several jobs with this id in the worker's own queue, the one that stands first
             first == SelectSeq(IF m.who \in DOMAIN o.pq THEN o.pq[m.who] ELSE << >>, LAMBDA u : u \in Cs)
             t == IF Cs = {} THEN NoJob
                  ELSE IF C \cap given = {} /\ first # << >> THEN first[1]
                  ELSE MinOrd(s.J, Cs) IN
         [J |-> IF t = NoJob THEN s.J
                ELSE [s.J EXCEPT ![t].st = "run", ![t].w = m.who, ![t].disp = @ + 1],
          W |-> IF m.who \in DOMAIN s.W
                THEN [s.W EXCEPT ![m.who].cur = IF t = NoJob THEN Phantom ELSE t, ![m.who].cid = DispId(m)]
                ELSE s.W,
          log |-> Append(s.log, [m |-> m, t |-> t, J |-> s.J, W |-> s.W])]
    ELSE s

NoPred == [lru |-> << >>, busy |-> {}, asg |-> << >>]
Run(o, e) ==
    LET pred == IF o.cfg.mgr = "multi" THEN Predict(o, e) ELSE NoPred IN
    FoldLeft(LAMBDA a, m : Emit(o, e, pred, a, m), [J |-> PreJ(o, e), W |-> PreW(o, e), log |-> << >>], e.out)
Log(o, e) == Run(o, e).log
Disp(log) == SelectSeq(log, LAMBDA x : IsDispatch(x.m))

\* does the event contradict the round-robin prediction?
ContradictsL(o, e, log) ==
    /\ o.cfg.mgr = "multi" /\ o.rr
    /\ LET pred == Predict(o, e)
           ent == RangeOf(Entering(o, e)) IN
       \/ \E i \in 1..Len(pred.asg) : LET a == pred.asg[i] IN
               \E k \in 1..Len(log) : IsDispatch(log[k].m) /\ log[k].t = a.t /\ log[k].m.who # a.w
       \/ \E k \in 1..Len(log) :
               /\ IsDispatch(log[k].m) /\ log[k].t \in Waiting(o) /\ log[k].t \notin ent
               /\ ~(log[k].m.who \in DOMAIN o.pq /\ log[k].t \in RangeOf(o.pq[log[k].m.who]))
Contradicts(o, e) == ContradictsL(o, e, Log(o, e))

Evolve(o, e) ==
    IF e.in.k = "reset" THEN InitObs(e.in.cfg)
    ELSE IF e.in.k = "mark" THEN o
    ELSE
    LET caps == CapsAfter(o, e)
        acc == Accepted(e)
        newtok == NewTokens(o, e)
        multi == o.cfg.mgr = "multi"
        run == Run(o, e)
        s == [W |-> run.W, J |-> Only(run.J, {t \in DOMAIN run.J : run.J[t].st # "over"})]
        rr == multi /\ o.rr /\ ~ContradictsL(o, e, run.log)
        pred == IF rr THEN Predict(o, e) ELSE NoPred
        \* 4. multi: whose queue does each waiting job stand in
        pq1 == [w \in DOMAIN caps |->
                  LET old == IF w \in DOMAIN o.pq /\ w \notin Gone(o, e) THEN o.pq[w] ELSE << >>
                      add == [i \in 1..Len(pred.asg) |-> pred.asg[i]]
                      mine == SelectSeq(add, LAMBDA a : a.w = w) IN
                  SelectSeq(old \o [i \in 1..Len(mine) |-> mine[i].t],
                            LAMBDA t : t \in DOMAIN s.J /\ s.J[t].st = "wait")]
        ownOf(t) ==
            IF ~multi THEN {}
            ELSE IF rr THEN {w \in DOMAIN pq1 : \E i \in 1..Len(pq1[w]) : pq1[w][i] = t}
            ELSE LET j == s.J[t]
                     base == IF t \in newtok \/ j.ord = o.clk \/ (o.rr /\ ~rr) \/ j.own \cap Gone(o, e) # {}
                             THEN {w \in DOMAIN caps : j.req # 0 /\ Sat(caps[w], j.req)}
                             ELSE j.own \cap DOMAIN caps IN
                 {w \in base : s.W[w].cur # NoJob}
        J2 == [t \in DOMAIN s.J |-> IF s.J[t].st = "wait" THEN [s.J[t] EXCEPT !.own = ownOf(t)] ELSE s.J[t]]
        \* 5. keep the order of waiting jobs as dense ranks
        ords == {J2[t].ord : t \in {u \in DOMAIN J2 : J2[u].st = "wait"}}
        rank(x) == Cardinality({y \in ords : y < x}) + 1
        J3 == [t \in DOMAIN J2 |-> [J2[t] EXCEPT !.ord = IF J2[t].st = "wait" THEN rank(@) ELSE 0]]
        idle == Cardinality({w \in DOMAIN s.W : s.W[w].cur = NoJob})
    IN
    [cfg |-> o.cfg,
     W |-> s.W,
     J |-> J3,
     n |-> IF newtok = {} THEN o.n ELSE o.n + 1,
     clk |-> Cardinality(ords) + 1,
     fz |-> IF e.in.k = "freeze" THEN TRUE ELSE IF e.in.k = "unfreeze" THEN FALSE ELSE o.fz,
     ok |-> IF ValidDone(o, e) /\ e.in.st = "OK" THEN o.ok + 1 ELSE o.ok,
     fl |-> IF ValidDone(o, e) /\ e.in.st # "OK" THEN o.fl + 1 ELSE o.fl,
     snap |-> IF e.in.k = "tick"
              THEN [q |-> Cardinality({t \in DOMAIN J3 : J3[t].st = "wait"}),
                    wc |-> Cardinality(DOMAIN s.W), idle |-> idle,
                    jip |-> Cardinality(DOMAIN s.W) - idle, any |-> TRUE]
              ELSE o.snap,
     reg |-> e.reg,
     cur |-> e.cur,
     rej |-> IF e.in.k # "eval" THEN o.rej
             ELSE IF acc THEN o.rej \ {e.in.id}
             ELSE IF \E t \in DOMAIN o.J : o.J[t].id = e.in.id THEN o.rej
             ELSE o.rej \cup {e.in.id},
     rr |-> IF multi THEN rr ELSE TRUE,
     lru |-> IF rr THEN pred.lru ELSE << >>,
     pq |-> IF rr THEN pq1 ELSE << >>]

----------------------------------------------------------------------------
(* The properties.  Each V..(o, e, p) is TRUE when the event BREAKS it;      *)
(* o is the state before, p the state after.                                 *)

Real(e) == e.in.k \notin {"reset", "mark"}
CountIn(seq, Test(_)) == Len(SelectSeq(seq, Test))

\* jobs reported / sent in this event
Told(o, e) == LET L == Log(o, e) IN {L[i].t : i \in {k \in 1..Len(L) : IsReport(L[k].m)}} \ {NoJob}
Sent(o, e) == LET L == Log(o, e) IN {L[i].t : i \in {k \in 1..Len(L) : IsDispatch(L[k].m)}} \ {NoJob}
SomeDispatch(o, e, Bad(_)) == \E i \in 1..Len(Log(o, e)) : IsDispatch(Log(o, e)[i].m) /\ Bad(Log(o, e)[i])

\* C01 ---------------------------------------------------------------------
ReportedIds(e) == {Reports(e)[i].id : i \in 1..Len(Reports(e))}
LiveIds(o, e, id) == {t \in DOMAIN o.J : o.J[t].id = id}
V01(o, e, p) ==
    \/ e.x # ""
    \* a report needs an unreported job, each job at most one
    \/ \E id \in ReportedIds(e) : CountIn(Reports(e), LAMBDA m : m.id = id) > Cardinality(LiveIds(o, e, id))
    \* a result must be reported, truthfully
    \/ /\ ValidDone(o, e) /\ e.in.st # "INTERNAL_ERROR" /\ o.W[e.in.w].cur \in DOMAIN o.J
       /\ ~\E i \in 1..Len(Reports(e)) : Reports(e)[i].id = e.in.id /\ Reports(e)[i].s = e.in.st
    \* OK may be reported for nothing else
    \/ \E i \in 1..Len(Reports(e)) : Reports(e)[i].s = "OK"
            /\ ~(ValidDone(o, e) /\ e.in.st = "OK" /\ e.in.id = Reports(e)[i].id)
    \* nothing is sent that is not an unreported job
    \/ \E i \in 1..Len(Log(o, e)) : Log(o, e)[i].t = NoJob
    \* after everything was finished (and every queue was kicked) nothing is left
    \/ e.in.k = "mark" /\ e.in.name = "end" /\ DOMAIN o.J # {}

\* C02 ---------------------------------------------------------------------
V02(o, e, p) ==
    SomeDispatch(o, e, LAMBDA x :
        \/ x.m.who \notin DOMAIN x.W
        \/ x.W[x.m.who].cur # NoJob
        \/ x.t # NoJob /\ x.J[x.t].st = "run")

\* C03 ---------------------------------------------------------------------
V03(o, e, p) ==
    SomeDispatch(o, e, LAMBDA x :
        x.t # NoJob /\ ~x.J[x.t].orphan /\ x.m.who \in DOMAIN x.W /\ ~Sat(x.W[x.m.who].cap, x.J[x.t].req))

\* C04 ---------------------------------------------------------------------
ClientMsgs(e) == SelectSeq(e.out, IsClient)
IsVerdict(m) == m.to = "c" /\ Len(m.f) > 0 /\ m.f[1] \in {"accept", "reject"}
GoodVerdict(o, e) ==
    LET c == ClientMsgs(e) IN
    /\ Len(c) = 2
    /\ c[1].who = e.in.c /\ c[2].who = e.in.c
    /\ c[1].f = <<"ack">>
    /\ IF ~o.fz /\ Capable(o, e, e.in.req) # {}
       THEN c[2].f = <<"accept">>
       ELSE Len(c[2].f) = 2 /\ c[2].f[1] = "reject" /\ c[2].f[2] # ""
V04(o, e, p) ==
    \/ e.in.k = "eval" /\ ~GoodVerdict(o, e)
    \/ e.in.k # "eval" /\ \E i \in 1..Len(e.out) : IsVerdict(e.out[i])
    \/ e.in.k = "eval" /\ ~Accepted(e) /\ LiveIds(o, e, e.in.id) = {} /\
            (SentTo(o, e, e.in.id) # {} \/ e.in.id \in ReportedIds(e))
    \/ \E id \in o.rej : LiveIds(o, e, id) = {} /\ ~(Accepted(e) /\ e.in.id = id) /\
            (SentTo(o, e, id) # {} \/ id \in ReportedIds(e))

\* C05 ---------------------------------------------------------------------
Stuck(p) ==
    IF p.cfg.mgr = "single"
    THEN \E t \in Waiting(p), w \in Registered(p) : ~Busy(p, w) /\ ~p.J[t].orphan /\ Sat(p.W[w].cap, p.J[t].req)
    ELSE IF p.rr THEN \E w \in Registered(p) : ~Busy(p, w) /\ w \in DOMAIN p.pq /\ p.pq[w] # << >>
    ELSE \E t \in Waiting(p) : ~p.J[t].orphan /\ \A w \in p.J[t].own : w \in Registered(p) /\ ~Busy(p, w)
V05(o, e, p) == Real(e) /\ e.x = "" /\ Stuck(p)

\* C06 ---------------------------------------------------------------------
Overtakes(o, e, x) ==
    LET w == x.m.who
        t == x.t IN
    /\ t \in Waiting(o)
    /\ t \notin RangeOf(Entering(o, e))
    /\ w \in DOMAIN CapsAfter(o, e)
    /\ IF o.cfg.mgr = "single"
       THEN \E u \in Waiting(o) :
                /\ u \in DOMAIN x.J /\ x.J[u].st = "wait"
                /\ x.J[u].ord < x.J[t].ord
                /\ Sat(CapsAfter(o, e)[w], x.J[u].req)
                /\ u \notin Told(o, e)
       ELSE o.rr /\ w \in DOMAIN o.pq /\ \E i \in 1..Len(o.pq[w]) : o.pq[w][i] = t /\ i > 1
V06(o, e, p) == SomeDispatch(o, e, LAMBDA x : Overtakes(o, e, x))

\* C07 ---------------------------------------------------------------------
V07(o, e, p) ==
    \* at the limit: reported at once and not sent again
    \/ \E t \in FailedAttempt(o, e) : ~o.J[t].orphan /\ AtLimit(o, e, t) /\
          (t \notin Told(o, e) \/ t \in Sent(o, e))
    \* below the limit: not given up while somebody can take it, whether it was running or waiting
    \/ \E t \in Told(o, e) \cap DOMAIN o.J :
          /\ ~o.J[t].orphan /\ t \notin Concluded(o, e)
          /\ ~AtLimit(o, e, t) /\ Capable(o, e, o.J[t].req) # {}
    \* bounded number of attempts
    \/ \E t \in DOMAIN p.J : p.J[t].disp > MaxOf2(1, o.cfg.maxf)
    \* concluded jobs are not retried
    \/ \E t \in Concluded(o, e) : t \in Sent(o, e)
    \* a job that failed below the limit is tried again eventually
    \/ e.in.k = "mark" /\ e.in.name = "end" /\ \E t \in DOMAIN o.J : o.J[t].fails > 0

\* C08 ---------------------------------------------------------------------
MustDie(o, e) ==
    IF e.in.k # "tick" THEN {}
    ELSE {w \in Registered(o) : o.W[w].t + e.in.ms > o.cfg.ival /\ o.W[w].miss + 1 >= o.cfg.live}
V08(o, e, p) == Real(e) /\ e.x = "" /\ Died(o, e) # MustDie(o, e)

\* C09 ---------------------------------------------------------------------
V09(o, e, p) ==
    \/ /\ Real(e) /\ e.x = ""
       /\ \/ \E t \in Running(p) : p.J[t].w \notin Registered(p)
          \/ \E t \in Waiting(p) : ~p.J[t].orphan /\ \A w \in Registered(p) : ~Sat(p.W[w].cap, p.J[t].req)
          \/ \E t \in Waiting(p) : p.J[t].orphan
          \/ \E i \in 1..Len(e.out) : IsDispatch(e.out[i]) /\ e.out[i].who \notin RangeOf(e.reg)
          \/ /\ Gone(o, e) # {}
             /\ \E t \in Told(o, e) \cap DOMAIN o.J :
                  /\ ~o.J[t].orphan
                  /\ ~AtLimit(o, e, t) /\ Capable(o, e, o.J[t].req) # {}
    \/ e.in.k = "mark" /\ e.in.name = "end" /\ \E t \in DOMAIN o.J : o.J[t].moved

\* C10 ---------------------------------------------------------------------
V10(o, e, p) ==
    /\ e.in.k = "done" /\ ~ValidDone(o, e) /\ e.x = ""
    /\ \/ e.out # << >>
       \/ e.reg # o.reg
       \/ e.cur # o.cur
       \/ e.st.ev # o.ok \/ e.st.fa # o.fl

\* C11 ---------------------------------------------------------------------
V11(o, e, p) ==
    \/ e.in.k \in {"freeze", "unfreeze"} /\ ~(Len(e.out) = 1 /\ e.out[1].to = "c" /\ e.out[1].who = e.in.c
                                               /\ e.out[1].f = <<"ack">>)
    \/ e.in.k \in {"freeze", "unfreeze"} /\ (e.reg # o.reg \/ e.cur # o.cur)
    \/ e.in.k = "eval" /\ o.fz /\ ~(GoodVerdict(o, e) /\ SentTo(o, e, e.in.id) = {} /\ e.cur = o.cur)
    \/ e.in.k = "eval" /\ ~o.fz /\ ~GoodVerdict(o, e)
    \/ Real(e) /\ e.x = "" /\ (e.st.fr = 1) # p.fz
    \* accepted work goes on while frozen
    \/ o.fz /\ Real(e) /\ e.in.k # "eval" /\ e.x = "" /\ (V05(o, e, p) \/ V07(o, e, p) \/ V09(o, e, p)
               \/ (ValidDone(o, e) /\ e.in.st # "INTERNAL_ERROR" /\ o.W[e.in.w].cur \in DOMAIN o.J
                     /\ ~\E i \in 1..Len(Reports(e)) : Reports(e)[i].id = e.in.id /\ Reports(e)[i].s = e.in.st))

\* C12 ---------------------------------------------------------------------
V12(o, e, p) ==
    \/ e.x # ""
    \/ /\ Real(e) /\ e.in.bad
       /\ \/ \E i \in 1..Len(e.reg) : e.reg[i] # e.in.who /\ e.reg[i] \notin RangeOf(o.reg)
          \/ \E i \in 1..Len(o.reg) : o.reg[i] \notin RangeOf(e.reg)
          \/ \E i \in 1..Len(o.reg) : \E k \in 1..Len(e.reg) :
                o.reg[i] = e.reg[k] /\ o.reg[i] # e.in.who /\ o.cur[i] # e.cur[k]
          \/ \E i \in 1..Len(e.out) : e.out[i].who # e.in.who /\ e.out[i].to \in {"w", "c"}

\* C13 ---------------------------------------------------------------------
V13(o, e, p) ==
    /\ Real(e) /\ e.x = ""
    /\ \/ Cardinality(RangeOf(e.reg)) # Len(e.reg)
       \/ e.in.k = "ping" /\ ~(Len(e.out) = 1 /\ e.out[1].to = "w" /\ e.out[1].who = e.in.w
                              /\ e.out[1].f = IF e.in.w \in Registered(o) THEN <<"pong">> ELSE <<"intro">>)
       \/ e.in.k = "init" /\ e.in.wf /\ e.in.w \notin RangeOf(e.reg)
       \/ e.in.k = "init" /\ e.in.wf /\ e.in.w \in Registered(o) /\ o.W[e.in.w].cap = e.in.cap /\
              (e.out # << >> \/ e.reg # o.reg \/ e.cur # o.cur)
       \/ Replaces(o, e) /\ CountIn(e.out, IsError) # 1
       \/ e.in.k = "init" /\ e.in.wf /\ e.in.w \notin Registered(o) /\ \E i \in 1..Len(e.out) : IsError(e.out[i])
       \/ e.in.k # "init" /\ RangeOf(e.reg) \ RangeOf(o.reg) # {}
       \* an old registration's job is handled like that of a dead worker
       \/ Replaces(o, e) /\ (V07(o, e, p) \/ V09(o, e, p) \/ V05(o, e, p))
       \* the latest capabilities count
       \/ \E w \in Registered(o) : o.W[w].rereg /\
              (V03(o, e, p) \/ (e.in.k = "eval" /\ ~o.fz /\ ~GoodVerdict(o, e)))

\* C14 ---------------------------------------------------------------------
V14(o, e, p) ==
    SomeDispatch(o, e, LAMBDA x :
        x.t # NoJob /\ ~x.J[x.t].orphan /\ x.m.f # <<"eval", x.J[x.t].id>> \o x.J[x.t].pay)

\* C15 ---------------------------------------------------------------------
\* jobs given up by the broker in this event
GivenUp(o, e) == {t \in Told(o, e) \cap DOMAIN o.J :
                    /\ t \notin Concluded(o, e)
                    /\ ~(o.J[t].orphan /\ ValidDone(o, e) /\ t = o.W[e.in.w].cur)}
Moved(o, e, p) == {t \in DOMAIN o.J : t \in LostRunning(o, e) /\ ~o.J[t].orphan /\ t \in DOMAIN p.J}
                    \cup (IF o.cfg.mgr = "multi" /\ o.rr
                          THEN {t \in Waiting(o) : t \in DOMAIN p.J /\ o.J[t].own \cap Gone(o, e) # {}} ELSE {})
\* single: waiting jobs that left the queue because nobody else could take them, and could re-enter it
Reentered(o, e, p) ==
    IF Gone(o, e) = {} THEN {}
    ELSE IF o.cfg.mgr = "single"
    THEN {t \in Waiting(o) \cap DOMAIN p.J : \A w \in Registered(o) \ Gone(o, e) : ~Sat(o.W[w].cap, o.J[t].req)}
    ELSE IF o.rr THEN {} ELSE Waiting(o) \cap DOMAIN p.J
MonRejected(o, e) == e.in.k = "eval" /\ ~o.fz /\ Capable(o, e, e.in.req) = {}
MonGot(e) == SelectSeq(e.out, IsMon)
V15(o, e, p) ==
    /\ Real(e) /\ e.x = ""
    /\ LET g == MonGot(e)
           n(id, s) == CountIn(g, LAMBDA m : m.f = <<id, s>>) IN
       IF e.in.k = "prog"
       THEN IF Len(e.in.f) = 0 THEN \E i \in 1..Len(g) : g[i].f # << >>
            ELSE ~(Len(g) = 1 /\ g[1].f = e.in.f /\ g[1].who = "recodex-monitor")
       ELSE LET gup == GivenUp(o, e)
                mov == Moved(o, e, p)
                ree == mov \cup Reentered(o, e, p)
                rej == MonRejected(o, e)
                \* how often the monitor must be told that job `id` ended with / came to `s`, at least and at most
                least(id, s) == IF s = "FAILED" THEN Cardinality({t \in gup : o.J[t].id = id}) + (IF rej /\ e.in.id = id THEN 1 ELSE 0)
                                ELSE IF s = "ABORTED" THEN Cardinality({t \in mov : o.J[t].id = id}) ELSE 0
                most(id, s) == IF s = "ABORTED" THEN Cardinality({t \in ree : o.J[t].id = id}) ELSE least(id, s) IN
            \/ \E id \in {o.J[t].id : t \in gup \cup mov} \cup (IF rej THEN {e.in.id} ELSE {}), s \in {"FAILED", "ABORTED"} :
                    n(id, s) < least(id, s)
            \/ \E i \in 1..Len(g) :
                    \/ Len(g[i].f) # 2 \/ g[i].who # "recodex-monitor"
                    \/ n(g[i].f[1], g[i].f[2]) > most(g[i].f[1], g[i].f[2])

\* C16 ---------------------------------------------------------------------
StatsWrong(st, p) ==
    \/ ~st.wfm
    \/ st.ev # p.ok \/ st.fa # p.fl
    \/ (st.fr = 1) # p.fz \/ st.fr \notin {0, 1}
    \/ st.q # p.snap.q \/ st.wc # p.snap.wc \/ st.idle # p.snap.idle
    \/ p.snap.any /\ st.jip # p.snap.jip
    \/ ~p.snap.any /\ st.jip \notin {-1, 0}
V16(o, e, p) ==
    /\ Real(e) /\ e.x = ""
    /\ \/ StatsWrong(e.st, p)
       \/ e.in.k = "stats" /\ ~(Len(e.out) = 1 /\ e.out[1].to = "c" /\ e.out[1].who = e.in.c
                                 /\ ~StatsWrong(e.out[1].st, p))

\* C22 ---------------------------------------------------------------------
V22(o, e, p) ==
    IF o.cfg.mgr = "multi" THEN Real(e) /\ Contradicts(o, e)
    ELSE \* single: a job that enters while a suitable worker is idle starts at once
         /\ Real(e) /\ e.x = ""
         /\ \E t \in Waiting(p) : ((t = o.n /\ p.n > o.n) \/ t \in FailedAttempt(o, e)) /\ ~p.J[t].orphan /\
                \E w \in Registered(p) : ~Busy(p, w) /\ Sat(p.W[w].cap, p.J[t].req)

\* C24 ---------------------------------------------------------------------
RunsOrphan(o, w) == w \in Registered(o) /\ Busy(o, w) /\ o.W[w].cur \in DOMAIN o.J /\ o.J[o.W[w].cur].orphan
V24(o, e, p) ==
    /\ Real(e) /\ e.x = ""
    /\ \/ NewInit(o, e) /\ e.in.hasdecl /\ \E i \in 1..Len(e.out) : e.out[i].to = "w" /\ e.out[i].who = e.in.w
       \/ NewInit(o, e) /\ e.in.hasdecl /\ ~\E i \in 1..Len(e.reg) : e.reg[i] = e.in.w /\ e.cur[i] = e.in.decl
       \* nothing is sent to a worker that runs an adopted job
       \/ \E i \in 1..Len(e.out) : IsDispatch(e.out[i]) /\ RunsOrphan(o, e.out[i].who)
              /\ ~(ValidDone(o, e) /\ e.in.w = e.out[i].who) /\ e.out[i].who \notin Gone(o, e)
       \* an adopted job is never sent
       \/ SomeDispatch(o, e, LAMBDA x : x.t # NoJob /\ x.J[x.t].orphan)
       \* its result is reported, and then the worker gets further work
       \/ /\ ValidDone(o, e) /\ RunsOrphan(o, e.in.w)
          /\ \/ ~\E i \in 1..Len(Reports(e)) : Reports(e)[i].id = e.in.id /\
                    Reports(e)[i].s = IF e.in.st = "OK" THEN "OK" ELSE "FAILED"
             \/ V05(o, e, p)
       \* it is reported FAILED when the worker is lost
       \/ \E t \in LostRunning(o, e) : o.J[t].orphan /\
              ~\E i \in 1..Len(Reports(e)) : Reports(e)[i].id = o.J[t].id /\ Reports(e)[i].s = "FAILED"

\* C25 ---------------------------------------------------------------------
MayReport(o, e) ==   \* jobs that end in this event, or have nobody left to run them
    DoneJob(o, e) \cup LostRunning(o, e)
    \cup (IF Gone(o, e) = {} THEN {}
          ELSE {t \in Waiting(o) : Capable(o, e, o.J[t].req) = {} \/ AtLimit(o, e, t)})
V25(o, e, p) ==
    /\ Real(e) /\ e.x = ""
    /\ \E i \in 1..Len(e.out) :
        LET m == e.out[i] IN
        \/ m.to \notin {"c", "w", "m", "n"}
        \/ m.to = "c" /\ ~(e.in.k \in {"eval", "evalbad", "stats", "freeze", "unfreeze"} /\ m.who = e.in.c
                            /\ (e.in.k = "evalbad" => m.f = <<"ack">>))
        \/ m.to = "w" /\ ~IsDispatch(m) /\ ~(e.in.k = "ping" /\ m.who = e.in.w /\ m.f \in {<<"pong">>, <<"intro">>})
        \/ IsDispatch(m) /\ e.in.k \notin {"eval", "init", "done", "tick"}
        \/ IsDispatch(m) /\ e.in.k = "tick" /\ Gone(o, e) = {}
        \/ IsDispatch(m) /\ e.in.k = "done" /\ ~ValidDone(o, e)
        \/ IsDispatch(m) /\ e.in.k = "eval" /\ DispId(m) # e.in.id
        \/ IsDispatch(m) /\ e.in.k = "init" /\ ~NewInit(o, e)
        \/ IsReport(m) /\ ~\E t \in MayReport(o, e) \cap Told(o, e) : o.J[t].id = m.id
        \/ IsReport(m) /\ m.s \notin {"OK", "FAILED"}
        \/ IsError(m) /\ ~Replaces(o, e)
        \/ m.to = "n" /\ ~IsReport(m) /\ ~IsError(m)
        \/ m.to = "m" /\ e.in.k \notin {"prog", "eval", "done", "tick", "init"}

ViolatedP(prop, o, e, p) ==
    CASE prop = "C01" -> V01(o, e, p)
      [] prop = "C02" -> V02(o, e, p)
      [] prop = "C03" -> V03(o, e, p)
      [] prop = "C04" -> V04(o, e, p)
      [] prop = "C05" -> V05(o, e, p)
      [] prop = "C06" -> V06(o, e, p)
      [] prop = "C07" -> V07(o, e, p)
      [] prop = "C08" -> V08(o, e, p)
      [] prop = "C09" -> V09(o, e, p)
      [] prop = "C10" -> V10(o, e, p)
      [] prop = "C11" -> V11(o, e, p)
      [] prop = "C12" -> V12(o, e, p)
      [] prop = "C13" -> V13(o, e, p)
      [] prop = "C14" -> V14(o, e, p)
      [] prop = "C15" -> V15(o, e, p)
      [] prop = "C16" -> V16(o, e, p)
      [] prop = "C22" -> V22(o, e, p)
      [] prop = "C24" -> V24(o, e, p)
      [] prop = "C25" -> V25(o, e, p)

Violated(prop, o, e) == ViolatedP(prop, o, e, Evolve(o, e))

----------------------------------------------------------------------------
(* Inputs that must leave no trace: whatever happens later must be exactly   *)
(* what would have happened without them (apart from the fact that a         *)
(* registered worker showed a sign of life).  Inert(p, o, e): event e is     *)
(* such an input by virtue of property p.                                    *)
Inert(prop, o, e) ==
    /\ Real(e)
    /\ CASE prop = "C10" -> e.in.k = "done" /\ ~ValidDone(o, e)
         [] prop = "C04" -> e.in.k = "eval" /\ (o.fz \/ Capable(o, e, e.in.req) = {})
         [] prop = "C11" -> \/ e.in.k = "eval" /\ o.fz
                            \/ e.in.k = "freeze" /\ o.fz
                            \/ e.in.k = "unfreeze" /\ ~o.fz
         [] prop = "C12" -> e.in.bad /\ ~(e.in.k = "done" /\ ValidDone(o, e))
         [] prop = "C13" -> \/ e.in.k = "ping"
                            \/ e.in.k = "init" /\ e.in.wf /\ e.in.w \in Registered(o) /\ o.W[e.in.w].cap = e.in.cap
         [] prop = "C15" -> e.in.k = "prog"
         [] prop = "C16" -> e.in.k = "stats"
         [] prop = "C25" -> e.in.k \in {"cunk", "wunk", "evalbad"}
         [] OTHER -> FALSE
\* must it be replaced by a sign of life when it is taken out of a history?
SignOfLife(o, e) == FromWorker(e) /\ e.in.w \in Registered(o)

AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
             "C15", "C16", "C22", "C24", "C25"}
=============================================================================
