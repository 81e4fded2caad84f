------------------------------- MODULE IsoTrace -------------------------------
(* Pairs of executions of the real broker: one with two groups of peers that *)
(* share no jobs, one with only one of the groups (and the same passing of   *)
(* time and freezing).  C26: the group's own messages meet with the same     *)
(* reactions, timer events have the same consequences for it, and its        *)
(* workers and their jobs are the same after every event.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
M == INSTANCE Matching
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Rng(s) == {s[i] : i \in 1..Len(s)}
\* the premise: no worker of one group satisfies a request of the other
Apart(d) == /\ \A c \in Rng(d.caps), r \in Rng(d.otherreqs) : ~M!Meets(c, r)
            /\ \A c \in Rng(d.othercaps), r \in Rng(d.reqs) : ~M!Meets(c, r)
            /\ Rng(d.peers) \cap Rng(d.otherpeers) = {} /\ Rng(d.jobs) \cap Rng(d.otherjobs) = {}
VARIABLES t, i, bad
Own(d, m) == CASE m.to \in {"c", "w"} -> m.who \in Rng(d.peers)
               [] m.to = "m" -> Len(m.f) > 0 /\ m.f[1] \in Rng(d.jobs)
               [] m.to = "n" -> m.id \in Rng(d.jobs)
               [] OTHER -> TRUE
Outs(d, x) == SelectSeq(x.out, LAMBDA m : Own(d, m))
Workers(d, x) == SelectSeq([k \in 1..Len(x.reg) |-> <<x.reg[k], x.cur[k]>>], LAMBDA p : p[1] \in Rng(d.peers))
Differ(d, e) ==
    CASE e.whose = "own" -> \/ e.with.out # e.without.out \/ e.with.x # e.without.x
                            \/ Workers(d, e.with) # Workers(d, e.without)
      [] e.whose = "shared" -> \/ Outs(d, e.with) # Outs(d, e.without)
                               \/ Workers(d, e.with) # Workers(d, e.without)
      [] OTHER -> FALSE
Init == /\ t \in 1..Len(Data) /\ i = 0 /\ bad = FALSE
        /\ Assert(Apart(Data[t]), <<"the groups are not apart", t>>)
Next == /\ i < Len(Data[t].ev) /\ i' = i + 1 /\ t' = t
        /\ bad' = Differ(Data[t], Data[t].ev[i + 1])
Spec == Init /\ [][Next]_<<t, i, bad>>
Holds == ~bad
Show == [t |-> t, i |-> i, bad |-> bad]
View == <<t, i>>
=============================================================================
