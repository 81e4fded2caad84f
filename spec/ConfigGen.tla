------------------------------ MODULE ConfigGen ------------------------------
(* Enumerates configuration documents: all the ones that state at most K     *)
(* items, with any combination of values, and with sections of every shape;  *)
(* with -simulate, documents that state arbitrarily many.                    *)
EXTENDS Config
CONSTANTS K, Mode
VARIABLES d, last
Omitted == [how |-> "omitted", v |-> ""]
D0(shape) == [shape |-> shape, sec |-> [s \in Sections |-> "none"], item |-> [i \in 1..N |-> Omitted]]
Init == last = 0 /\ d \in {D0("map"), D0("seq"), D0("scalar")}
Values(i) == {[how |-> "scalar", v |-> x] : x \in RangeOf(Good[Items[i].t]) \cup RangeOf(Bad[Items[i].t])} \cup {[how |-> "other", v |-> ""]}
Stated == Cardinality({i \in 1..N : d.item[i] # Omitted})
SetItem(i) == \E x \in Values(i) :
                /\ d' = [d EXCEPT !.item[i] = x, !.sec = IF Items[i].s = "" THEN @ ELSE [@ EXCEPT ![Items[i].s] = "map"]]
                /\ last' = i
Next == \/ /\ d.shape = "map" /\ Stated < K
           /\ IF Mode = "sim" THEN \E i \in {RandomElement(1..N)} : (d.item[i] = Omitted /\ (SetItem(i) \/ SetItem(i)))
              ELSE \E i \in (last + 1)..N : SetItem(i)
        \/ \E s \in Sections : d.shape = "map" /\ d.sec[s] = "none" /\ d' = [d EXCEPT !.sec[s] = "other"] /\ last' = last
Spec == Init /\ [][Next]_<<d, last>>
View == d
\* an item cannot be stated in a section that is not a map: such documents do not exist
Exists == \A i \in 1..N : d.item[i] # Omitted /\ Items[i].s # "" => d.sec[Items[i].s] = "map"
RECURSIVE Text(_)
Text(i) == IF i > N THEN "" ELSE
             (IF d.item[i] = Omitted THEN "" ELSE ToString(i) \o (IF d.item[i].how = "other" THEN "!" ELSE "=" \o d.item[i].v) \o "|") \o Text(i + 1)
RECURSIVE SecText(_)
SecText(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x \o "," \o SecText(S \ {x})
\* one line per document: shape; sections that are no maps; items
Emit == (Mode = "sim" => Stated = K) => PrintT("DOC;" \o d.shape \o ";" \o SecText({s \in Sections : d.sec[s] = "other"}) \o ";" \o Text(1))
OneOther == Mode = "sim" \/ Cardinality({s \in Sections : d.sec[s] = "other"}) <= 1
Inv == Exists
=============================================================================
