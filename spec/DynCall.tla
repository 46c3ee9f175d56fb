------------------------------- MODULE DynCall -------------------------------
(* C28: methods called by name (Native::MethodCall).                                                                                     *)
(* A call binds the given values to the parameters of the method: numeric parameters take objects of their class, multi-numeric ones and *)
(* references take arrays, object parameters what an assignment would take; missing optional arguments have their default values.  If a  *)
(* value does not fit, nothing is called.  A called method sees the values, writes through its references into the caller's arrays, and  *)
(* its return value comes back as an object; an exception comes back as ExceptionThrown, its id in the cell given for it.                *)
(* A value is [t type, v numbers or text]; "undef" has type "".  Histories of calls over shared variables; the state is their values.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RowFile
Data == JsonDeserialize(RowFile)
Rows == Data.rows
VARIABLES n
Undef == [t |-> "", v |-> <<>>]
Boxed == [byte |-> "Byte", short |-> "Short", int |-> "Int", long |-> "Long", float |-> "Float", double |-> "Double"]
Nums == DOMAIN Boxed
\* arrays whose elements are objects
ObjArrays == {"string[]", "McA[]", "McB[]", "McC[]", "Int[]", "int[][]", "object[]", "McI[]"}
Subs == [McA |-> {"McA", "McB"}, McB |-> {"McB"}, McC |-> {"McC"}, McI |-> {"McA", "McB"}]
ObjFits(t, a) ==
   CASE t = "object" -> TRUE
     [] t = "object[]" -> a \in ObjArrays
     [] t \in DOMAIN Subs -> a \in Subs[t]
     [] t \in {"McA[]", "McI[]"} -> a \in {"McA[]", "McB[]"} \cup {t}
     [] OTHER -> a = t
Fits(p, a) ==
   CASE p.c = "obj" -> a.t = "" \/ ObjFits(p.t, a.t)
     [] p.c = "num" -> a.t # "" /\ a.t = Boxed[p.t]
     [] OTHER -> a.t # "" /\ a.t = p.b \o "[]" /\ Len(a.v) = p.w          \* mul, ref, mulref
\* an argument of an operation: the name of a variable or a value
Val(pool, a) == IF a.k = "var" THEN pool[a.n] ELSE a.x
Default(p) == IF p.c = "obj" THEN Undef ELSE [t |-> Boxed[p.t], v |-> <<p.def>>]
Seen(pool, m, args) == [j \in 1 .. Len(m.params) |-> IF j <= Len(args) THEN Val(pool, args[j]) ELSE Default(m.params[j])]
Bump(p, x) ==
   CASE p.c = "ref" -> [x EXCEPT !.v[1] = @ + 1]
     [] p.c = "mulref" -> [x EXCEPT !.v[1] = @ + 1]
     [] p.c = "obj" /\ p.t = "int[]" /\ x.t # "" /\ Len(x.v) > 0 -> [x EXCEPT !.v[1] = @ + 10]
     [] p.c = "obj" /\ p.t \in {"McA", "McB"} /\ x.t # "" -> [x EXCEPT !.v[1] = @ + 1]
     [] OTHER -> x
RECURSIVE Effects(_,_,_,_)
Effects(pool, m, args, j) ==
   IF j > Len(args) THEN pool
   ELSE Effects(IF args[j].k = "var" THEN [pool EXCEPT ![args[j].n] = Bump(m.params[j], @)] ELSE pool, m, args, j + 1)
Direct(p, a) == IF a.k = "val" THEN Bump(p, a.x) ELSE Undef
\* what the method gives back
Returned(m, seen, args, pool2) ==
   IF m.kind # "arg" THEN (IF m.kind = "const" THEN m.const ELSE Undef)
   ELSE LET j == m.ret p == m.params[j]
        IN IF p.c = "obj" /\ j <= Len(args) THEN (IF args[j].k = "var" THEN pool2[args[j].n] ELSE Bump(p, args[j].x)) ELSE seen[j]
Find(row, c, name) == LET s == {j \in 1 .. Len(row.methods) : row.methods[j].name = name /\ row.methods[j].cls = c} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE
Bases == [McA |-> <<"McA">>, McB |-> <<"McB", "McA">>]
RECURSIVE Up(_,_,_)
Up(row, cs, name) == IF cs = <<>> THEN 0 ELSE LET j == Find(row, cs[1], name) IN IF j # 0 THEN (IF row.methods[j].inst THEN j ELSE 0) ELSE Up(row, Tail(cs), name)
\* the method meant: "class" by its class; "static" an instance method by a class alone, "inst" by the object's class and those it extends
Meant(row, pool, o) ==
   CASE o.via = "class" -> LET j == Find(row, o.cls, o.m) IN IF j # 0 /\ ~row.methods[j].inst THEN j ELSE 0
     [] o.via = "static" -> LET j == Find(row, o.cls, o.m) IN IF j # 0 /\ row.methods[j].inst THEN j ELSE 0
     [] OTHER -> IF o.args = <<>> THEN 0 ELSE LET x == Val(pool, o.args[1]) IN IF x.t \in DOMAIN Bases THEN Up(row, Bases[x.t], o.m) ELSE 0
Step(row, pool, o) ==
   LET j == Meant(row, pool, o) IN
   IF j = 0 THEN [pool |-> pool, out |-> [r |-> "bad", ref |-> "same", ret |-> Undef, seen |-> <<>>, who |-> ""]]
   ELSE LET m == row.methods[j]
            ok == Len(o.args) >= m.req /\ Len(o.args) <= Len(m.params) /\ \A i \in 1 .. Len(o.args) : Fits(m.params[i], Val(pool, o.args[i]))
        IN IF ~ok THEN [pool |-> pool, out |-> [r |-> "bad", ref |-> "same", ret |-> Undef, seen |-> <<>>, who |-> ""]]
           ELSE LET seen == Seen(pool, m, o.args) p2 == Effects(pool, m, o.args, 1) die == m.kind \in {"die", "dieX"}
                IN [pool |-> p2,
                    out |-> [r |-> IF die THEN "thrown" ELSE "ok", ref |-> CASE m.kind = "die" -> "Error" [] m.kind = "dieX" -> "McErr" [] OTHER -> "0",
                             ret |-> IF die THEN Undef ELSE Returned(m, seen, o.args, p2), seen |-> seen, who |-> m.cls]]
RECURSIVE Run(_,_,_)
Run(row, pool, j) == IF j > Len(row.ops) THEN <<[final |-> pool]>>
                     ELSE LET s == Step(row, pool, row.ops[j]) IN <<s.out>> \o Run(row, s.pool, j + 1)
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", [runs |-> Run(Rows[n + 1], Rows[n + 1].pool, 1)])
Spec == Init /\ [][Next]_n
\* a call that does not fit changes nothing
Rejected == n > 0 => \A j \in 1 .. Len(Rows[n].ops) : LET s == Step(Rows[n], Rows[n].pool, Rows[n].ops[j]) IN s.out.r = "bad" => s.pool = Rows[n].pool
==============================================================================
