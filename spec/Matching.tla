------------------------------ MODULE Matching ------------------------------
(* When does a worker satisfy the requirements of a job?                     *)
(* A capability is [hw |-> hardware group, hdr |-> sequence of <<name,value>>]*)
(* a requirement set is a sequence of <<name,value>>.                        *)
EXTENDS Naturals, Sequences

Ch(s, i) == SubSeq(s, i, i)

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E d \in 1..10 : Digits[d] = c
DigitVal(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
IsNumber(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))

\* number of leading zeros; numbers are compared as strings of digits, so that they may exceed TLC's integers
Zeros(s) == CHOOSE n \in 0..Len(s) :
                /\ \A i \in 1..n : Ch(s, i) = "0"
                /\ n = Len(s) \/ Ch(s, n + 1) # "0"
Norm(s) == SubSeq(s, Zeros(s) + 1, Len(s))
NumLeq(a, b) ==
    LET x == Norm(a)
        y == Norm(b) IN
    \/ Len(x) < Len(y)
    \/ /\ Len(x) = Len(y)
       /\ \/ x = y
          \/ \E i \in 1..Len(x) :
                /\ \A j \in 1..(i - 1) : Ch(x, j) = Ch(y, j)
                /\ DigitVal(Ch(x, i)) < DigitVal(Ch(y, i))

\* a thread count is a number the broker can represent (size_t); anything else satisfies and is satisfied by nothing
IsCount(s) == IsNumber(s) /\ NumLeq(s, "18446744073709551615")

\* does `part` occur in `s` as one of its segments separated by "|"?
IsAlternative(part, s) ==
    \E i \in 1..Len(s) :
        /\ i = 1 \/ Ch(s, i - 1) = "|"
        /\ i + Len(part) - 1 <= Len(s)
        /\ SubSeq(s, i, i + Len(part) - 1) = part
        /\ i + Len(part) > Len(s) \/ Ch(s, i + Len(part)) = "|"

MeetsOne(cap, name, value) ==
    \/ name = "hwgroup" /\ IsAlternative(cap.hw, value)
    \/ \E i \in 1..Len(cap.hdr) :
        /\ cap.hdr[i][1] = name
        /\ IF name = "threads"
           THEN IsCount(value) /\ IsCount(cap.hdr[i][2]) /\ NumLeq(value, cap.hdr[i][2])
           ELSE cap.hdr[i][2] = value

Meets(cap, req) == \A i \in 1..Len(req) : MeetsOne(cap, req[i][1], req[i][2])
=============================================================================
