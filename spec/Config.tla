------------------------------- MODULE Config -------------------------------
(* What a configuration document means (C21).  A document is described by    *)
(*   shape   "map" or something else                                        *)
(*   sec     section -> "map", "none" (omitted) or "other" (not a map)       *)
(*   item    item -> [how, v]: how = "omitted", "other" (not a scalar) or    *)
(*           "scalar" with the text v                                        *)
(* Effect(d) is "error" or the value of every setting.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Items == <<
    [n |-> "queue_manager", s |-> "", t |-> "str", d |-> "single"],
    [n |-> "clients.address", s |-> "clients", t |-> "str", d |-> "*"],
    [n |-> "clients.port", s |-> "clients", t |-> "u16", d |-> "0"],
    [n |-> "workers.address", s |-> "workers", t |-> "str", d |-> "*"],
    [n |-> "workers.port", s |-> "workers", t |-> "u16", d |-> "0"],
    [n |-> "workers.max_liveness", s |-> "workers", t |-> "size", d |-> "4"],
    [n |-> "workers.max_request_failures", s |-> "workers", t |-> "size", d |-> "3"],
    [n |-> "workers.ping_interval", s |-> "workers", t |-> "size", d |-> "1000"],
    [n |-> "monitor.address", s |-> "monitor", t |-> "str", d |-> "127.0.0.1"],
    [n |-> "monitor.port", s |-> "monitor", t |-> "u16", d |-> "7894"],
    [n |-> "notifier.address", s |-> "notifier", t |-> "str", d |-> ""],
    [n |-> "notifier.port", s |-> "notifier", t |-> "u16", d |-> "0"],
    [n |-> "notifier.username", s |-> "notifier", t |-> "str", d |-> ""],
    [n |-> "notifier.password", s |-> "notifier", t |-> "str", d |-> ""],
    [n |-> "logger.file", s |-> "logger", t |-> "path", d |-> "/var/log/recodex/broker"],
    [n |-> "logger.level", s |-> "logger", t |-> "str", d |-> "debug"],
    [n |-> "logger.max-size", s |-> "logger", t |-> "size", d |-> "1048576"],
    [n |-> "logger.rotations", s |-> "logger", t |-> "size", d |-> "3"]>>
N == Len(Items)
Sections == {"clients", "workers", "monitor", "notifier", "logger"}

\* values to try; the last ones of the numeric types are not convertible
Good == [str |-> <<"127.0.0.2", "x y", "007", " x  ", "">>, u16 |-> <<"1", "65535", "9658", "0">>,
         size |-> <<"1", "70000", "5000000000", "0">>, path |-> <<"/tmp/a/b", "/q", "rel/log", "broker.log", "/var/log/x.y.z">>]
Bad == [str |-> << >>, u16 |-> <<"65536", "-1", "abc", "1.5", "12x">>, size |-> <<"-1", "abc", "2.5", "1 2", "99999999999999999999999">>, path |-> << >>]
RangeOf(q) == {q[i] : i \in 1..Len(q)}

InEffect(d, i) == /\ d.item[i].how = "scalar"
                  /\ Items[i].s = "" \/ d.sec[Items[i].s] = "map"
Effect(d) ==
    IF d.shape # "map" THEN <<"error">>
    ELSE IF \E i \in 1..N : InEffect(d, i) /\ d.item[i].v \in RangeOf(Bad[Items[i].t]) THEN <<"error">>
    ELSE [i \in 1..N |-> IF InEffect(d, i) THEN d.item[i].v ELSE Items[i].d]
=============================================================================
