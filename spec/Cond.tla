-------------------------------- MODULE Cond --------------------------------
(* C04: condition evaluation, the value of && || ! on every operand type, and which operands are evaluated.  *)
(* A row gives the operands: [t: type, zero: the value is zero/undef/false, iv: the value if t is within int] *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)
\* the int a condition evaluates to
CondVal(o) == IF o.t \in {"byte","short","int"} THEN o.iv ELSE IF o.zero THEN 0 ELSE 1
Truth(o) == CondVal(o) # 0
And(a,b) == IF Truth(a) THEN [v |-> CondVal(b), ev |-> <<"a","b">>] ELSE [v |-> 0, ev |-> <<"a">>]
Or(a,b)  == IF Truth(a) THEN [v |-> CondVal(a), ev |-> <<"a">>] ELSE [v |-> CondVal(b), ev |-> <<"a","b">>]
Not(a)   == IF Truth(a) THEN 0 ELSE 1
B(x) == IF x THEN 1 ELSE 0
Result(r) == [and |-> And(r.a, r.b), or |-> Or(r.a, r.b), nota |-> Not(r.a), ifa |-> B(Truth(r.a)), unlessa |-> B(~Truth(r.a)),
              whilea |-> B(Truth(r.a)), fora |-> B(Truth(r.a)),
              ifand |-> B(And(r.a, r.b).v # 0), ifor |-> B(Or(r.a, r.b).v # 0), ifnota |-> Not(r.a),
              notand |-> B(And(r.a, r.b).v = 0), notor |-> B(Or(r.a, r.b).v = 0), nn |-> B(Truth(r.a))]
VARIABLE i
Init == i = 0
Next == i < Len(Rows) /\ i' = i + 1 /\ JsonSerialize("out_" \o ToString(i+1) \o ".json", Result(Rows[i+1]))
Spec == Init /\ [][Next]_i
\* laws
DeMorgan == \A j \in 1..Len(Rows) : LET r == Rows[j] IN
   /\ (And(r.a, r.b).v # 0) = (Truth(r.a) /\ Truth(r.b))
   /\ (Or(r.a, r.b).v # 0) = (Truth(r.a) \/ Truth(r.b))
=============================================================================
