------------------------------ MODULE Capacity ------------------------------
(* C15: the capacity of a list.  Recorded steps [o, i, ok, n, c, n2, c2]: operation, its argument, length and capacity   *)
(* before and after.  The growth policy is free; the relation below is what the documentation fixes.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)
Legal(s) == /\ s.c2 >= s.n2
            /\ s.ok = 0 => s.n2 = s.n /\ s.c2 >= s.c
            /\ s.o = "reserve" /\ s.ok = 1 => s.n2 = s.n /\ s.c2 = (IF s.i > s.c THEN s.i ELSE s.c)
            /\ s.o = "create" => (s.i >= 0 => s.c2 = (IF s.i > s.n2 THEN s.i ELSE s.n2))
            /\ s.o = "same" => s.c2 >= s.c
VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1
Bad == {k \in 1..Len(Rows) : ~Legal(Rows[k])}
Report == JsonSerialize("bad.json", [bad |-> Bad])
AllLegal == n = 0 => Report
==============================================================================
