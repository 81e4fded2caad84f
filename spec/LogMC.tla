-------------------------------- MODULE LogMC --------------------------------
(* The rules of Log.tla keep what a user of the log relies on: the files are *)
(* bounded in size and number, they hold the latest records in order, and    *)
(* nothing is thrown away while there is room.                               *)
EXTENDS Log
CONSTANTS Max, Rot, Records
VARIABLES files, written
Init == files = << << >> >> /\ written = << >>
Next == /\ Len(written) < Records
        /\ \E n \in 1..(Max + 1) :
             LET r == [l |-> "info", n |-> n, x |-> Len(written)] IN
             written' = Append(written, r) /\ files' = Write(files, r, Max, Rot)
Spec == Init /\ [][Next]_<<files, written>>
Bounded == Len(files) <= Rot + 1 /\ \A i \in 1..Len(files) : Size(files[i]) <= Max \/ Len(files[i]) = 1
Latest == IsSuffix(Oldest(files), written) /\ (written # << >> => files[1] # << >>)
Thrifty == /\ Len(Oldest(files)) < Len(written) => Len(files) = Rot + 1
           /\ \A i \in 2..Len(files) : Size(files[i]) + files[i - 1][1].n > Max
Same == files = WriteAll(<< << >> >>, written, Max, Rot)
=============================================================================
