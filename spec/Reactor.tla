------------------------------- MODULE Reactor -------------------------------
(* Operational model of the reactor: a poll loop that takes at most one      *)
(* message from every readable socket per cycle, calls synchronous handlers  *)
(* directly, hands messages to asynchronous ones through mailboxes served by *)
(* a thread each, takes the latter's responses from one common mailbox, and  *)
(* announces the elapsed time at the end of every cycle.  Composed with the  *)
(* observer of ReactorProps: all interleavings of peers, loop and handler    *)
(* threads satisfy C17 and C20 (with an abstract clock).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxMsgs,   \* messages sent by peers
          MaxClock,
          Mode       \* "mc", or "gen": print a schedule of the peers' and handlers' actions

Socks == {"a", "b"}
\* hs: synchronous, of a and the topic t;  ha, hb: asynchronous
Hs == {"hs", "ha", "hb"}
Asy(h) == h # "hs"
Sub(h) == CASE h = "hs" -> {"a", "t", "timer"} [] h = "ha" -> {"a", "b"} [] h = "hb" -> {"b", "t"}
P == INSTANCE ReactorProps WITH Handlers <- Hs, IsAsync <- Asy, Subs <- Sub, Sockets <- Socks

\* a message carries the responses its receivers give: kind 0: none; 1: everyone answers to socket a;
\* 2: ha answers to topic t; 3: hs answers to the topic t-less socket b twice
Answers(h, m) ==
    CASE m.f = 1 -> <<"a">>
      [] m.f = 2 /\ h \in {"ha", "hs"} /\ m.src = "ext" -> IF h = "ha" THEN <<"t">> ELSE << >>
      [] m.f = 3 /\ h = "hs" -> <<"b", "b">>
      [] OTHER -> << >>

VARIABLES inq,      \* socket -> messages sent by peers and not read by the loop
          outq,     \* socket -> messages written by the loop and not read by peers
          mbox,     \* asynchronous handler -> its mailbox
          back,     \* responses of asynchronous handlers, on their way to the loop
          todo,     \* sockets the loop still has to look at in this cycle ("_": mailbox of responses)
          clock, last,  \* real time; time up to which elapsed time was announced
          n, seq,   \* messages sent; numbers of messages per <<src, dest>>
          r, broken, term, ended, hist
vars == <<inq, outq, mbox, back, todo, clock, last, n, seq, r, broken, term, ended, hist>>

Idle == "idle"
Judge(es) ==      \* feed events to the observer
    LET F[i \in 0..Len(es)] == IF i = 0 THEN [r |-> r, b |-> broken]
                               ELSE [r |-> P!EvolveR(F[i - 1].r, es[i]),
                                     b |-> F[i - 1].b \cup {p \in {"C17", "C20"} : P!ViolatedR(p, F[i - 1].r, es[i])}] IN
    /\ r' = F[Len(es)].r
    /\ broken' = F[Len(es)].b

Init == /\ inq = [s \in Socks |-> << >>] /\ outq = [s \in Socks |-> << >>]
        /\ mbox = [h \in {"ha", "hb"} |-> << >>] /\ back = << >> /\ todo = << >>
        /\ clock = 0 /\ last = 0 /\ n = 0 /\ seq = << >>
        /\ r = P!EvolveR(P!InitR, [k |-> "init", at |-> 0]) /\ broken = {} /\ term = FALSE /\ ended = FALSE /\ hist = << >>

Num(q, src, dest) == IF <<src, dest>> \in DOMAIN q THEN q[<<src, dest>>] + 1 ELSE 1
SetNum(q, src, dest, v) == [x \in (DOMAIN q) \cup {<<src, dest>>} |-> IF x = <<src, dest>> THEN v ELSE q[x]]

\* a peer sends
Send(s, kind) ==
    LET m == [id |-> Num(seq, "ext", s), f |-> kind, src |-> "ext"] IN
    /\ n < MaxMsgs /\ n' = n + 1
    /\ inq' = [inq EXCEPT ![s] = Append(@, m)]
    /\ seq' = SetNum(seq, "ext", s, m.id)
    /\ Judge(<<[k |-> "put", src |-> "ext", dest |-> s, m |-> m]>>)
    /\ hist' = Append(hist, <<"send", s, kind>>)
    /\ UNCHANGED <<outq, mbox, back, todo, clock, last, term, ended>>

\* deliver message m of origin `key` to all its handlers; x collects [out, mbox, es, seq]
RECURSIVE Deliver(_, _, _), Post(_, _, _), Respond(_, _, _, _)
Deliver(x, key, m) ==
    LET asy == {h \in {"ha", "hb"} : key \in Sub(h)}
        x1 == [x EXCEPT !.mbox = [h \in DOMAIN @ |-> IF h \in asy THEN Append(@[h], [key |-> key, m |-> m]) ELSE @[h]]] IN
    IF key \in Sub("hs")
    THEN Respond([x1 EXCEPT !.es = Append(@, [k |-> "got", h |-> "hs", src |-> m.src, dest |-> key, m |-> m])],
                 "hs", Answers("hs", m), m)
    ELSE x1
Post(x, dest, m) == IF dest \in Socks THEN [x EXCEPT !.out = [@ EXCEPT ![dest] = Append(@, m)]] ELSE Deliver(x, dest, m)
Respond(x, h, ds, m) ==
    IF ds = << >> THEN x
    ELSE LET d == Head(ds)
             k == [id |-> Num(x.seq, h, d), f |-> 0, src |-> h]
             y == [x EXCEPT !.seq = SetNum(@, h, d, k.id), !.es = Append(@, [k |-> "put", src |-> h, dest |-> d, m |-> k])] IN
         Respond(Post(y, d, k), h, Tail(ds), m)
X0 == [out |-> outq, mbox |-> mbox, es |-> << >>, seq |-> seq]
Take(x) == outq' = x.out /\ mbox' = x.mbox /\ seq' = x.seq

\* the loop
Poll == /\ todo = << >> /\ ~ended /\ ~term
        /\ todo' = SelectSeq(<<"a", "b">>, LAMBDA s : inq[s] # << >>) \o (IF back # << >> THEN <<"_">> ELSE << >>) \o <<"T">>
        /\ UNCHANGED <<inq, outq, mbox, back, clock, last, n, seq, r, broken, term, ended, hist>>
Read == /\ todo # << >> /\ Head(todo) \in Socks
        /\ LET s == Head(todo)
               x == Deliver(X0, s, Head(inq[s])) IN
           Take(x) /\ Judge(x.es) /\ inq' = [inq EXCEPT ![s] = Tail(@)]
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<back, clock, last, n, term, ended, hist>>
ReadBack == /\ todo # << >> /\ Head(todo) = "_"
            /\ LET x == Post(X0, Head(back).dest, Head(back).m) IN Take(x) /\ Judge(x.es)
            /\ back' = Tail(back) /\ todo' = Tail(todo)
            /\ UNCHANGED <<inq, clock, last, n, term, ended, hist>>
Timer == /\ todo # << >> /\ Head(todo) = "T"
         /\ todo' = << >> /\ last' = clock
         /\ Judge(<<[k |-> "timer", h |-> "hs", ms |-> clock - last, at |-> clock]>>)
         /\ UNCHANGED <<inq, outq, mbox, back, clock, n, seq, term, ended, hist>>
Tick == /\ clock < MaxClock /\ clock' = clock + 10
        /\ UNCHANGED <<inq, outq, mbox, back, todo, last, n, seq, r, broken, term, ended, hist>>
Stop == /\ ~term /\ term' = TRUE /\ Judge(<<[k |-> "term"]>>)
        /\ UNCHANGED <<inq, outq, mbox, back, todo, clock, last, n, seq, ended, hist>>
\* handlers are destroyed once their mailboxes are empty
Ended == /\ term /\ todo = << >> /\ ~ended /\ \A h \in DOMAIN mbox : mbox[h] = << >>
         /\ ended' = TRUE /\ Judge(<<[k |-> "ended", ok |-> TRUE]>>)
         /\ UNCHANGED <<inq, outq, mbox, back, todo, clock, last, n, seq, term, hist>>

\* an asynchronous handler
Serve(h) ==
    /\ mbox[h] # << >>
    /\ LET it == Head(mbox[h])
           ds == Answers(h, it.m)
           Num0(i) == Num(seq, h, ds[i])       \* at most one answer per destination here
           ms == [i \in 1..Len(ds) |-> [dest |-> ds[i], m |-> [id |-> Num0(i), f |-> 0, src |-> h]]] IN
       /\ back' = back \o ms
       /\ seq' = IF ds = << >> THEN seq ELSE SetNum(seq, h, ds[1], Num0(1))
       /\ Judge(<<[k |-> "got", h |-> h, src |-> it.m.src, dest |-> it.key, m |-> it.m]>>
                \o [i \in 1..Len(ds) |-> [k |-> "put", src |-> h, dest |-> ds[i], m |-> ms[i].m]])
    /\ mbox' = [mbox EXCEPT ![h] = Tail(@)]
    /\ hist' = Append(hist, <<"serve", h, 0>>)
    /\ UNCHANGED <<inq, outq, todo, clock, last, n, term, ended>>

PeerReads(s) == /\ outq[s] # << >> /\ outq' = [outq EXCEPT ![s] = Tail(@)]
                /\ Judge(<<[k |-> "out", src |-> Head(outq[s]).src, dest |-> s, m |-> Head(outq[s])]>>)
                /\ UNCHANGED <<inq, mbox, back, todo, clock, last, n, seq, term, ended, hist>>
\* nothing is left to do
Quiet == /\ \A s \in Socks : inq[s] = << >> /\ outq[s] = << >>
         /\ \A h \in DOMAIN mbox : mbox[h] = << >>
         /\ back = << >> /\ todo \in {<< >>, <<"T">>}

Loop == Poll \/ Read \/ ReadBack \/ Timer \/ Ended
Next == \/ \E s \in Socks, k \in 0..3 : Send(s, k)
        \/ Loop \/ Tick \/ Stop
        \/ \E h \in {"ha", "hb"} : Serve(h)
        \/ \E s \in Socks : PeerReads(s)
Fair == WF_vars(Loop) /\ \A h \in {"ha", "hb"} : WF_vars(Serve(h)) /\ \A s \in Socks : WF_vars(PeerReads(s))
Spec == Init /\ [][Next]_vars /\ Fair
View == <<inq, outq, mbox, back, todo, clock, last, n, seq, r, broken, term, ended>>

AllHold == broken = {}
\* whenever nothing is left to do, everything has been delivered
Settled == Quiet => P!LeftOver(r, {}) = {}
Ends == term ~> (ended \/ ~term)
Delivered == (n = MaxMsgs /\ ~term) ~> (Quiet \/ term)
Emit == Mode = "gen" => (Len(hist) = MaxMsgs * 2 => PrintT(<<"PATH", hist>>))
=============================================================================
