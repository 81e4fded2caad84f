--------------------------------- MODULE Log ---------------------------------
(* The log (part of C21): which records are kept, and in which files.        *)
(* A record is [l |-> level, n |-> size, x |-> text (a number)].  The files  *)
(* are a sequence, the newest first; a file is a sequence of records.        *)
EXTENDS Integers, Sequences, FiniteSets

Rank == [trace |-> 0, debug |-> 1, info |-> 2, warning |-> 3, error |-> 4, critical |-> 5]
\* the least level of the records that are kept, for every documented setting
Need == [debug |-> 1, info |-> 2, notice |-> 3, warn |-> 3, err |-> 4, critical |-> 5, alert |-> 5, emerg |-> 5, off |-> 6]
Kept(level, recs) == SelectSeq(recs, LAMBDA r : Rank[r.l] >= Need[level])

RECURSIVE Size(_)
Size(file) == IF file = << >> THEN 0 ELSE file[1].n + Size(Tail(file))

(* one more record: into the newest file if it fits, else into a fresh one,  *)
(* and no more than ROT older files are kept                                 *)
Write(files, r, max, rot) ==
    IF Size(files[1]) > 0 /\ Size(files[1]) + r.n > max
    THEN SubSeq(<< <<r>> >> \o files, 1, IF Len(files) < rot + 1 THEN Len(files) + 1 ELSE rot + 1)
    ELSE << Append(files[1], r) >> \o Tail(files)

RECURSIVE WriteAll(_, _, _, _)
WriteAll(files, recs, max, rot) == IF recs = << >> THEN files ELSE WriteAll(Write(files, recs[1], max, rot), Tail(recs), max, rot)

RECURSIVE Oldest(_)
Oldest(files) == IF files = << >> THEN << >> ELSE Oldest(Tail(files)) \o files[1]
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
=============================================================================
