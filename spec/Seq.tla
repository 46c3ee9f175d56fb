--------------------------------- MODULE Seq ---------------------------------
(* C15: the list classes and StringBuffer are sequences.  Elements are numbers: for a numeric list the value (wrapped to *)
(* its width on storing), for a string list a token (0 = undef), for a buffer a byte, for an object list the identity of *)
(* an object (0 = undef) that dies when neither a variable nor a sequence holds it.  Two sequences q[1], q[2].            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)                 \* [w: width or 0, k: "num" | "str" | "obj" | "buf", ops]
Start == [q |-> <<<<>>, <<>>>>, slots |-> <<0, 0, 0>>, ids |-> 1]
Wr(w, x) == IF w = 0 THEN x ELSE LET b == 2^w m == x % b IN IF m >= b \div 2 THEN m - b ELSE m
Zeros(n) == [i \in 1..n |-> 0]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Splice(s, i, n, new) == Take(s, i) \o new \o Drop(s, i + n)
Resize(s, n) == IF n <= Len(s) THEN Take(s, n) ELSE s \o Zeros(n - Len(s))
Cmp(a, b) == LET m == {i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] # b[i]}
             IN IF m = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) = Len(b) THEN 0 ELSE 1)
                ELSE LET i == CHOOSE x \in m : \A y \in m : x <= y IN IF a[i] < b[i] THEN -1 ELSE 1
Ok(st, r) == [st |-> st, ok |-> 1, r |-> r]
Die(st) == [st |-> st, ok |-> 0, r |-> <<>>]

Do(P, st, op) ==
  LET o == op.o  q == st.q[op.h]  n == Len(q)  i == op.i
      E(v) == IF P.k = "obj" THEN (IF v = 0 THEN 0 ELSE st.slots[v]) ELSE Wr(P.w, v)       \* the element an operand denotes
      Es == [j \in 1..Len(op.e) |-> E(op.e[j])]
      Set(s) == [st EXCEPT !.q[op.h] = s]
      Bad == op.bad = 1                                                                    \* the operand has a type the list cannot hold
  IN CASE o = "obj"     -> Ok([st EXCEPT !.slots[i] = st.ids, !.ids = @ + 1], <<>>)
       [] o = "drop"    -> Ok([st EXCEPT !.slots[i] = 0], <<>>)
       [] o = "new"     -> Ok(Set(Es), <<>>)
       [] o = "new_len" -> IF i < 0 THEN Die(st) ELSE Ok(Set(Zeros(i)), <<>>)
       [] o = "get"     -> IF i < 0 \/ i >= n THEN Die(st) ELSE Ok(st, <<q[i+1]>>)
       [] o = "set"     -> IF i < 0 \/ i >= n \/ Bad THEN Die(st) ELSE Ok(Set([q EXCEPT ![i+1] = E(op.v)]), <<>>)
       [] o = "insert"  -> IF i < 0 \/ i > n \/ Bad THEN Die(st) ELSE Ok(Set(Splice(q, i, 0, <<E(op.v)>>)), <<>>)
       [] o = "push"    -> IF Bad THEN Die(st) ELSE Ok(Set(Append(q, E(op.v))), <<>>)
       [] o = "unshift" -> IF Bad THEN Die(st) ELSE Ok(Set(<<E(op.v)>> \o q), <<>>)
       [] o = "pop"     -> IF n = 0 THEN Die(st) ELSE Ok(Set(Take(q, n - 1)), <<q[n]>>)
       [] o = "shift"   -> IF n = 0 THEN Die(st) ELSE Ok(Set(Drop(q, 1)), <<q[1]>>)
       [] o = "remove"  -> IF i < 0 \/ i >= n THEN Die(st) ELSE Ok(Set(Splice(q, i, 1, <<>>)), <<q[i+1]>>)
       [] o = "replace" -> IF i < 0 \/ op.v < 0 \/ i > n \/ op.v > n - i \/ Bad THEN Die(st) ELSE Ok(Set(Splice(q, i, op.v, Es)), <<>>)
       [] o = "reserve" -> IF i < 0 /\ P.k \in {"num", "buf"} THEN Die(st) ELSE Ok(st, <<>>)
       [] o = "resize"  -> IF i < 0 THEN Die(st) ELSE Ok(Set(Resize(q, i)), <<>>)
       [] o = "array"   -> Ok(st, q)
       [] o = "imm"     -> Ok(st, q)                                     \* an immutable list made of to_array, read back
       \* StringBuffer: add a part of a string; -1 stands for the rest; set, copy, compare
       [] o = "add"     -> LET l == IF op.v = -1 THEN Len(Es) - i ELSE op.v IN
                           IF Bad \/ i < 0 \/ l < 0 \/ i > Len(Es) \/ l > Len(Es) - i THEN Die(st) ELSE Ok(Set(q \o SubSeq(Es, i + 1, i + l)), <<>>)
       [] o = "assign"  -> IF Bad THEN Die(st) ELSE Ok(Set(Es), <<>>)
       [] o = "clone"   -> Ok([st EXCEPT !.q[op.v] = q], <<>>)
       [] o = "cmp"     -> Ok(st, <<Cmp(q, st.q[op.v]), IF q = st.q[op.v] THEN 1 ELSE 0>>)
Live(st) == ({st.slots[i] : i \in 1..3} \cup UNION {{st.q[h][i] : i \in DOMAIN st.q[h]} : h \in 1..2}) \ {0}
RECURSIVE Asc(_), Run(_, _, _, _)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Run(P, st, ops, acc) == IF ops = <<>> THEN acc
  ELSE LET x == Do(P, st, Head(ops))
           dead == IF P.k = "obj" THEN Asc(Live(st) \ Live(x.st)) ELSE <<>>
       IN Run(P, x.st, Tail(ops), Append(acc, [ok |-> x.ok, r |-> x.r, d |-> dead, n |-> Len(x.st.q[Head(ops).h])]))

VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Run(Rows[n+1], Start, Rows[n+1].ops, <<>>))

\* laws, over all sequences of length at most 3
Ss == UNION {[1..k -> 1..2] : k \in 0..3}
P0 == [k |-> "num", w |-> 0]
Op(o, i, v) == [o |-> o, h |-> 1, i |-> i, v |-> v, e |-> <<>>, bad |-> 0]
On(s, op) == LET x == Do(P0, [Start EXCEPT !.q[1] = s], op) IN [ok |-> x.ok, r |-> x.r, q |-> x.st.q[1]]
Laws == \A s \in Ss :
  /\ \A v \in 1..2 : /\ On(On(s, Op("push", 0, v)).q, Op("pop", 0, 0)) = [ok |-> 1, r |-> <<v>>, q |-> s]
                     /\ On(On(s, Op("unshift", 0, v)).q, Op("shift", 0, 0)) = [ok |-> 1, r |-> <<v>>, q |-> s]
                     /\ \A i \in 0..Len(s) : On(On(s, Op("insert", i, v)).q, Op("remove", i, 0)) = [ok |-> 1, r |-> <<v>>, q |-> s]
  /\ \A i \in -2..4, v \in -2..4 : LET x == On(s, [Op("replace", i, v) EXCEPT !.e = <<7, 8>>]) IN
       IF x.ok = 0 THEN x.q = s ELSE Len(x.q) = Len(s) - v + 2 /\ SubSeq(x.q, i + 1, i + 2) = <<7, 8>>
  /\ \A i \in 0..5 : LET x == On(s, Op("resize", i, 0)) IN Len(x.q) = i /\ \A j \in 1..i : x.q[j] = IF j <= Len(s) THEN s[j] ELSE 0
  /\ \A t \in Ss : Cmp(s, t) = 0 - Cmp(t, s) /\ (Cmp(s, t) = 0 <=> s = t)
==============================================================================
