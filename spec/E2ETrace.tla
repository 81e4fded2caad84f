------------------------------- MODULE E2ETrace -------------------------------
(* Is what the peers of a running broker program observed a behaviour of the *)
(* specification (Broker.tla) behind an asynchronous network?                *)
(*                                                                           *)
(* A run is a sequence of blocks.  In a block every peer sends a sequence of *)
(* messages, concurrently with the others, and receives a sequence of        *)
(* messages; at its end everything has been received (the driver flushes     *)
(* every connection).  Between two peers no order is observable: TLC looks   *)
(* for an order of handling the messages, for the moments at which silent    *)
(* workers are declared dead and for the choices left open by the            *)
(* specification that explain what every single peer received, in order.     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Prop
M == INSTANCE Matching
Data == JsonDeserialize(IOEnv.TRACE_FILE)
SatTab == [c \in 1..Len(Data.caps) |-> [r \in 1..Len(Data.reqs) |-> M!Meets(Data.caps[c], Data.reqs[r])]]
SatT(c, r) == SatTab[c][r]
B == INSTANCE Broker WITH Sat <- SatT

Runs == Data.runs
VARIABLES t, k, b, used, pos
vars == <<t, k, b, used, pos>>

Block == Runs[t].blocks[k]
Ins == Block.ins
NIn == Len(Ins)
Chan == 1..Len(Block.outs)          \* receivers: [who, msgs]
ChanOf(m) == IF m.to = "n" THEN "frontend" ELSE m.who

\* may message i be handled next?
Ready(i) == /\ i \notin used
            /\ \A j \in 1..NIn : j \notin used /\ j # i =>
                    /\ Ins[j].stage >= Ins[i].stage
                    /\ ~(Ins[j].peer = Ins[i].peer /\ j < i)

\* does the specified message m of a reaction to `in` look like the received message r?
Same(in, m, r) ==
    CASE m.to = "n" -> /\ r.t = m.t
                       /\ m.t = "error" \/ (r.id = m.id /\ r.s = m.s)
                       /\ in.k = "done" /\ in.st = "FAILED" => r.m = m.m
      [] m.f = <<"stats">> -> r.st.wfm /\ r.st.ev = m.st.ev /\ r.st.fa = m.st.fa /\ r.st.fr = m.st.fr
      [] m.f[1] = "reject" /\ m.to = "c" -> Len(r.f) = 2 /\ r.f[1] = "reject"
      [] OTHER -> r.f = m.f

\* messages out for channel c
For(out, c) == SelectSeq(out, LAMBDA m : ChanOf(m) = Block.outs[c].who)
Explained(in, out) ==
    /\ \A i \in 1..Len(out) : \E c \in Chan : ChanOf(out[i]) = Block.outs[c].who
    /\ \A c \in Chan :
        LET f == For(out, c) IN
        /\ pos[c] + Len(f) <= Len(Block.outs[c].msgs)
        /\ \/ \A i \in 1..Len(f) : Same(in, f[i], Block.outs[c].msgs[pos[c] + i])
           \* news about different jobs may be told in any order
           \/ /\ Block.outs[c].who \in {"frontend", "recodex-monitor"}
              /\ Len(f) \in 2..6
              /\ \E q \in Permutations(1..Len(f)) :
                    \A i \in 1..Len(f) : Same(in, f[q[i]], Block.outs[c].msgs[pos[c] + i])
Advance(out) == pos' = [c \in Chan |-> pos[c] + Len(For(out, c))]

\* the choice the single-queue manager has among idle workers
Perms == IF b.cfg.mgr = "single" THEN {<<x>> \o SetToSeq(DOMAIN b.w \ {x}) : x \in DOMAIN b.w} \cup {SetToSeq(DOMAIN b.w)}
         ELSE {<< >>}
AllPerms == IF b.cfg.mgr = "single" THEN SetToSeqs(DOMAIN b.w) ELSE {<< >>}

Msg(i) == /\ Ins[i].in.k # "die"
          /\ \E p \in (IF Ins[i].in.k \in {"eval", "done"} THEN Perms ELSE AllPerms) :
                LET s == B!Step(b, Ins[i].in, p) IN
                /\ Explained(Ins[i].in, s.e.out)
                /\ Advance(s.e.out)
                /\ b' = s.b
          /\ used' = used \cup {i}

\* silent workers are declared dead, one at a time or several at once; not before they were silent long enough
Die(S) == LET ws == {Ins[i].in.w : i \in S}
              a == [b EXCEPT !.w = [x \in DOMAIN b.w |-> IF x \in ws THEN [b.w[x] EXCEPT !.live = 1, !.t = b.cfg.ival + 1]
                                                         ELSE [b.w[x] EXCEPT !.live = b.cfg.live, !.t = 0]]] IN
          /\ ws \subseteq DOMAIN b.w
          /\ \A i \in S : Ins[i].in.wait >= b.cfg.live * b.cfg.ival
          /\ \E p \in AllPerms :
                LET s == B!Step(a, [k |-> "tick", ms |-> 0], p) IN
                /\ Explained([k |-> "tick"], s.e.out)
                /\ Advance(s.e.out)
                /\ b' = s.b
          /\ used' = used \cup S

Handle == /\ \/ \E i \in 1..NIn : Ready(i) /\ Msg(i)
             \/ \E S \in SUBSET {i \in 1..NIn : Ready(i) /\ Ins[i].in.k = "die"} : S # {} /\ Die(S)
          /\ UNCHANGED <<t, k>>

Complete == used = 1..NIn /\ \A c \in Chan : pos[c] = Len(Block.outs[c].msgs)
NextBlock == /\ Complete
             /\ PrintT(<<"DONE", t, k>>)
             /\ k < Len(Runs[t].blocks)
             /\ k' = k + 1 /\ used' = {} /\ pos' = [c \in 1..Len(Runs[t].blocks[k + 1].outs) |-> 0]
             /\ UNCHANGED <<t, b>>

Init == /\ t \in {x \in 1..Len(Runs) : Len(Runs[x].blocks) > 0} /\ k = 1 /\ used = {} /\ b = B!InitBroker(Runs[t].cfg)
        /\ pos = [c \in 1..Len(Runs[t].blocks[1].outs) |-> 0]
Next == Handle \/ NextBlock
Spec == Init /\ [][Next]_vars
=============================================================================
