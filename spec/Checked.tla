------------------------------ MODULE Checked ------------------------------
(* C10: containers (arrays of every element type, strings, objects with fields) and the operations on them with    *)
(* every index, length and operand, valid or not.  An operation either is valid and has its effect, or it throws   *)
(* and nothing changes.  Values are tokens: 0 is zero/undef, 1 and 2 are two further values of the element type.   *)
(* State: a = <<"u">> (undefined) or <<"d", elements>>, ro = read-only (strings), x = a variable of element type. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)
U == [d |-> FALSE, e |-> <<>>, ro |-> FALSE]
D(e, ro) == [d |-> TRUE, e |-> e, ro |-> ro]
Start == [a |-> U, x |-> 0]
In(a, i) == a.d /\ i >= 0 /\ i < Len(a.e)
Zeros(n) == [j \in 1..n |-> 0]
Ok(s, r) == [s |-> s, ok |-> TRUE, r |-> r]
Throw(s) == [s |-> s, ok |-> FALSE, r |-> -1]
El(s, i) == s.a.e[i+1]
Put(s, i, v) == [s EXCEPT !.a.e[i+1] = v]

\* kind: "arr" (elements are numbers), "ref" (elements are objects), "str" (mutable or read-only characters), "obj" (two fields)
Step(k, s, op) ==
  LET o == op.o i == op.i IN
  CASE o = "new"    -> IF k # "obj" /\ i < 0 THEN Throw(s) ELSE Ok([s EXCEPT !.a = D(Zeros(IF k = "obj" THEN 2 ELSE i), FALSE)], -1)
    [] o = "lit"    -> Ok([s EXCEPT !.a = D(op.e, k = "str")], -1)                   \* array initialisation; a string literal is read-only
    [] o = "nil"    -> Ok([s EXCEPT !.a = U], -1)
    [] o = "setx"   -> Ok([s EXCEPT !.x = i], -1)
    [] o = "get"    -> IF In(s.a, i) THEN Ok([s EXCEPT !.x = El(s, i)], -1) ELSE Throw(s)
    [] o = "set"    -> IF In(s.a, i) /\ ~(k = "str" /\ s.a.ro) THEN Ok(Put(s, i, s.x), -1) ELSE Throw(s)
    [] o = "rmw"    -> IF In(s.a, i) /\ ~(k = "str" /\ s.a.ro) THEN Ok(s, -1) ELSE Throw(s)     \* += 0 and the like
    [] o = "bad"    -> Throw(s)                                                       \* the value to store throws (division, cast, die)
    [] o = "badx"   -> Throw(s)                                                       \* x = a throwing expression
    [] o = "deref"  -> IF In(s.a, i) /\ El(s, i) # 0 THEN Ok(s, El(s, i)) ELSE Throw(s)   \* use of the object in element i
    [] o = "derefx" -> IF s.x # 0 THEN Ok(s, s.x) ELSE Throw(s)
    [] o = "len"    -> IF s.a.d THEN Ok(s, Len(s.a.e)) ELSE IF k = "str" THEN Ok(s, 0) ELSE Throw(s)
    [] o = "each"   -> IF s.a.d THEN Ok(s, Len(s.a.e)) ELSE Throw(s)
    [] o = "copy"   -> Ok([s EXCEPT !.a.ro = FALSE], -1)
    [] o = "mkro"   -> Ok([s EXCEPT !.a.ro = @ \/ s.a.d], -1)
    [] o = "isro"   -> Ok(s, IF s.a.ro THEN 1 ELSE 0)
    [] o = "mcast"  -> IF s.a.ro THEN Throw(s) ELSE Ok(s, -1)
    [] o = "cat"    -> IF s.a.d THEN Ok([s EXCEPT !.a = D(@.e \o op.e, FALSE)], -1) ELSE Throw(s)
    [] o = "catnil" -> Throw(s)
    [] o = "weaken" -> IF s.a.d THEN Ok(s, -1) ELSE Throw(s)
    [] o = "call"   -> IF s.a.d THEN Ok(s, El(s, 0) * 10 + El(s, 1)) ELSE Throw(s)

RECURSIVE Obs(_, _, _)
Obs(k, s, ops) == IF ops = <<>> THEN <<>>
                  ELSE LET q == Step(k, s, Head(ops)) IN <<[ok |-> q.ok, r |-> q.r, d |-> q.s.a.d, e |-> q.s.a.e, x |-> q.s.x]>> \o Obs(k, q.s, Tail(ops))
VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Obs(Rows[n+1].k, Start, Rows[n+1].ops))

\* laws, over all states with up to two elements and all operations
Ints == {-2147483647, -1, 0, 1, 2, 2147483647}
Elems == {<<>>} \cup {<<v>> : v \in 0..2} \cup {<<v, w>> : v \in 0..2, w \in 0..2}
States == [a : {U} \cup {D(e, r) : e \in Elems, r \in BOOLEAN}, x : 0..2]
Names == {"new","lit","nil","setx","get","set","rmw","bad","badx","deref","derefx","len","each","copy","mkro","isro","mcast","cat","catnil","weaken"}
AllOps == {[o |-> o, i |-> i, e |-> <<1>>] : o \in Names \ {"new","setx"}, i \in Ints} \cup {[o |-> "new", i |-> i, e |-> <<>>] : i \in Ints \ {2147483647}} \cup {[o |-> "setx", i |-> i, e |-> <<>>] : i \in 0..2}
Laws == \A k \in {"arr","ref","str"}, s \in States, op \in AllOps :
   LET q == Step(k, s, op) IN
   /\ ~q.ok => q.s = s                                                                \* a failing operation changes nothing
   /\ (s.a.d /\ q.s.a.d /\ op.o \notin {"new","lit","cat"}) => Len(q.s.a.e) = Len(s.a.e)
   /\ (k = "str" /\ s.a.ro /\ q.s.a.ro /\ op.o # "lit") => q.s.a.e = s.a.e                         \* a read-only string never changes
   /\ \A j \in 0..1 : (In(s.a, j) /\ In(q.s.a, j) /\ op.o \notin {"new","lit"} /\ ~(op.o = "set" /\ op.i = j)) => El(q.s, j) = El(s, j)
============================================================================
