------------------------------ MODULE MatchGen ------------------------------
(* All small sets of capabilities and of requirements over an alphabet chosen *)
(* to tell apart the ways of comparing them: groups that are prefixes,        *)
(* suffixes and parts of each other, numbers whose numeric and textual orders *)
(* differ, repeated names, empty values, names that only look like others.    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANTS CapMax, ReqMax

Groups == {"g", "gg", "g1", "h"}
GroupWishes == {"g", "gg", "g1", "h", "G", "g|h", "h|g", "h|gg", "gg|g1", "x|g1|h", "x|y", "gh", "hg", "g|", "g;h", "g |h"}
Counts == {"0", "1", "2", "9", "10", "16", "010", "18446744073709551615"}
CapHeaders == ({"env"} \X {"c", "java", "cpp", ""}) \cup ({"threads"} \X (Counts \cup {"many"})) \cup {<<"env2", "c">>, <<"k", "a=b">>, <<"metal", "x">>}
ReqHeaders == ({"hwgroup"} \X GroupWishes) \cup ({"threads"} \X (Counts \cup {"many", "99999999999999999999999"}))
              \cup ({"env"} \X {"c", "java", "cpp", "C", "", "c|java"}) \cup {<<"env2", "c">>, <<"en", "c">>, <<"k", "a=b">>, <<"k", "a">>, <<"meta.env", "x">>, <<"meta.threads", "99">>,
                     <<"meta", "x">>, <<"metal", "x">>, <<"thread", "1">>, <<"hwgroups", "g">>}

\* collections of at most n headers (ordered sequences in some fixed order: multisets)
Bag(S, n) == LET q == SetToSeq(S) IN
             {<<>>} \cup (IF n < 1 THEN {} ELSE {<<q[i]>> : i \in 1..Len(q)})
                    \cup (IF n < 2 THEN {} ELSE UNION {{<<q[i], q[j]>> : j \in i..Len(q)} : i \in 1..Len(q)})
                    \cup (IF n < 3 THEN {} ELSE UNION {UNION {{<<q[i], q[j], q[k]>> : k \in j..Len(q)} : j \in i..Len(q)} : i \in 1..Len(q)})
Caps == SetToSeq({[hw |-> g, hdr |-> h] : g \in Groups, h \in Bag(CapHeaders, CapMax)})
Reqs == SetToSeq(Bag(ReqHeaders, ReqMax))
ASSUME JsonSerialize(IOEnv.OUT_FILE, [caps |-> Caps, reqs |-> Reqs])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
