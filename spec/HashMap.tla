------------------------------- MODULE HashMap -------------------------------
(* C14: a Hash is a finite map from byte strings to objects.  Keys are numbered in byte order.  A value is            *)
(* [t, n, id]: what it is (O = object of a class with a destructor, B S I L F D = boxed number, T = string, U = undef), *)
(* its content and its identity.  A hash entry is strong or weak.  A value dies when no variable and no strong entry    *)
(* refers to it; the weak entries that refer to it then hold undef.  Any number of hashes; variables ("slots") besides. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)
Undef == [t |-> "U", n |-> 0, id |-> 0]
Empty == [k \in {} |-> 0]
Start == [slots |-> <<Undef, Undef, Undef>>, hs |-> <<Empty, Empty>>, ids |-> 1]
Ent(v) == [v |-> v, w |-> 0]
Get(h, k) == IF k \in DOMAIN h THEN h[k].v ELSE Undef
Without(h, k) == [j \in DOMAIN h \ {k} |-> h[j]]
Asc(S) == LET RECURSIVE F(_)  F(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o F(s \ {m}) IN F(S)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

\* the two's complement wrap of the boxing constructors
W(b, x) == LET m == x % b IN IF m >= b \div 2 THEN m - b ELSE m
Box(t, n, id) == [t |-> t, id |-> id, n |-> CASE t = "B" -> W(256, n) [] t = "S" -> W(65536, n) [] OTHER -> n]

\* which value types the typed getters accept
Accepts(t) == CASE t = "B" -> {"B"} [] t = "S" -> {"B", "S"} [] t = "I" -> {"B", "S", "I"} [] t = "L" -> {"B", "S", "I", "L"}
                [] t = "F" -> {"F"} [] t = "D" -> {"D"} [] t = "T" -> {"T", "U"} [] t = "A" -> {"U", "O", "B", "S", "I", "L", "F", "D", "T"}

\* garbage: keep what is referenced, clear the weak entries of the rest; the destroyed objects with a destructor
Held(st) == {st.slots[i].id : i \in DOMAIN st.slots} \cup UNION {{e.v.id : e \in {st.hs[i][k] : k \in {j \in DOMAIN st.hs[i] : st.hs[i][j].w = 0}}} : i \in DOMAIN st.hs}
All(st) == {st.slots[i].id : i \in DOMAIN st.slots} \cup UNION {{st.hs[i][k].v.id : k \in DOMAIN st.hs[i]} : i \in DOMAIN st.hs}
Sweep(st) == LET held == Held(st) IN
  [st EXCEPT !.hs = [i \in DOMAIN @ |-> [k \in DOMAIN @[i] |-> IF @[i][k].v.id \in held THEN @[i][k] ELSE Ent(Undef)]]]
Objs(st) == {st.slots[i].n : i \in {j \in DOMAIN st.slots : st.slots[j].t = "O"}}
            \cup UNION {{st.hs[i][k].v.n : k \in {j \in DOMAIN st.hs[i] : st.hs[i][j].v.t = "O"}} : i \in DOMAIN st.hs}

Val(v) == [e |-> 0, v |-> <<v>>, k |-> <<>>]
Vals(ks, vs) == [e |-> 0, v |-> vs, k |-> ks]
Num(x) == [e |-> 0, v |-> <<>>, k |-> <<x>>]
None == [e |-> 0, v |-> <<>>, k |-> <<>>]
Dies == [e |-> 1, v |-> <<>>, k |-> <<>>]
R(st, r) == [st |-> st, r |-> r]

RECURSIVE Fill(_, _, _)
Fill(h, kvs, id) == IF kvs = <<>> THEN h ELSE Fill((Head(kvs).k :> Ent(Box(Head(kvs).t, Head(kvs).n, id))) @@ h, Tail(kvs), id + 1)
Do(st, op) ==
  LET o == op.o  h == st.hs[op.h]  k == op.k  v == Get(h, k)
      \* the operand of set and of the default: a slot, or a new value
      nv == IF op.t = "slot" THEN st.slots[op.n] ELSE IF op.t = "U" THEN Undef ELSE Box(op.t, op.n, st.ids)
      st1 == [st EXCEPT !.ids = @ + 1]
  IN CASE o = "obj"    -> R([st1 EXCEPT !.slots[op.n] = [t |-> "O", n |-> st.ids, id |-> st.ids]], None)
       [] o = "drop"   -> R([st EXCEPT !.slots[op.n] = Undef], None)
       [] o = "take"   -> R([st EXCEPT !.slots[op.n] = v], Val(v))                         \* slot = hash->get(key)
       [] o = "new"    -> R([st EXCEPT !.hs[op.h] = Fill(Empty, op.kvs, st.ids), !.ids = @ + Len(op.kvs)], None)
       [] o = "newbad" -> R(st, Dies)                                                        \* odd length, undef or non-string key
       [] o = "badkey" -> R(st, Dies)                                                        \* any method with an undef key
       [] o = "set"    -> R([st1 EXCEPT !.hs[op.h] = (k :> Ent(nv)) @@ h], None)
       [] o = "get"    -> IF v.t \in Accepts(op.t) THEN R(st, Val(v)) ELSE R(st, Dies)
       [] o = "getd"   -> IF k \notin DOMAIN h THEN R(st, Val(Box(IF op.t = "A" THEN "I" ELSE op.t, op.n, 0))) ELSE IF v.t \in Accepts(op.t) THEN R(st, Val(v)) ELSE R(st, Dies)
       [] o = "deld"   -> IF k \notin DOMAIN h THEN R(st, Val(Box(IF op.t = "A" THEN "I" ELSE op.t, op.n, 0))) ELSE IF v.t \in Accepts(op.t) THEN R([st EXCEPT !.hs[op.h] = Without(h, k)], Val(v)) ELSE R(st, Dies)
       [] o = "exists" -> R(st, Num(IF k \in DOMAIN h THEN 1 ELSE 0))
       [] o = "delete" -> R([st EXCEPT !.hs[op.h] = Without(h, k)], Val(v))
       [] o = "len"    -> R(st, Num(Cardinality(DOMAIN h)))
       [] o = "has"    -> R(st, Num(IF DOMAIN h = {} THEN 0 ELSE 1))
       [] o = "keys"   -> R(st, Vals(Asc(DOMAIN h), <<>>))
       [] o = "values" -> R(st, Vals(<<>>, LET ks == Asc(DOMAIN h) IN [i \in 1..Len(ks) |-> h[ks[i]].v]))
       [] o = "array"  -> R(st, LET ks == IF op.n < 0 THEN Rev(Asc(DOMAIN h)) ELSE Asc(DOMAIN h) IN Vals(ks, [i \in 1..Len(ks) |-> h[ks[i]].v]))
       [] o = "copy"   -> R([st EXCEPT !.hs[op.n] = [j \in DOMAIN h |-> Ent(h[j].v)]], None)
       [] o = "weaken" -> R(IF k \in DOMAIN h /\ v.t # "U" THEN [st EXCEPT !.hs[op.h][k].w = 1] ELSE st, None)
       [] o = "unweaken" -> R(IF k \in DOMAIN h THEN [st EXCEPT !.hs[op.h][k].w = 0] ELSE st, None)
       [] o = "isweak" -> R(st, Num(IF k \in DOMAIN h THEN h[k].w ELSE 0))
       [] o = "many"   -> R([st EXCEPT !.hs[op.h] = [j \in op.k..op.n |-> Ent(Box("I", j, 0 - j))] @@ h], None)   \* set_int for a range of keys
       [] o = "few"    -> R([st EXCEPT !.hs[op.h] = [j \in DOMAIN h \ (op.k..op.n) |-> h[j]]], None)              \* delete a range of keys
Line(r, dead) == [e |-> r.e, v |-> [i \in 1..Len(r.v) |-> r.v[i].t \o ToString(r.v[i].n)], k |-> r.k, d |-> Asc(dead)]
RECURSIVE Run(_, _, _)
Run(st, ops, acc) == IF ops = <<>> THEN acc
  ELSE LET x == Do(st, Head(ops))  y == Sweep(x.st)
           born == IF Head(ops).o = "obj" THEN {st.ids} ELSE {}
       IN Run(y, Tail(ops), Append(acc, Line(x.r, (Objs(st) \cup born) \ Objs(y))))

VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Run(Start, Rows[n+1], <<>>))

\* laws of the map, over all hashes with at most two keys and all small operations
Vs == {Undef, Box("I", 5, 7), [t |-> "O", n |-> 8, id |-> 8]}
Hs == UNION {[D -> {Ent(v) : v \in Vs}] : D \in SUBSET {1, 2}}
Op(o, k) == [o |-> o, h |-> 1, k |-> k, t |-> "A", n |-> 2, kvs |-> <<>>]
Laws == \A h \in Hs, k \in 1..3, j \in 1..3 :
  LET st == [Start EXCEPT !.hs[1] = h, !.ids = 20]
      set == Do(st, [Op("set", k) EXCEPT !.t = "I", !.n = 3]).st
      del == Do(st, Op("delete", k)).st
  IN /\ Do(set, Op("get", k)).r.v[1].n = 3 /\ Do(del, Op("exists", k)).r.k = <<0>>
     /\ j # k => Do(set, Op("get", j)).r = Do(st, Op("get", j)).r /\ Do(del, Op("get", j)).r = Do(st, Op("get", j)).r
     /\ Do(set, Op("len", 1)).r.k[1] = Do(st, Op("len", 1)).r.k[1] + (IF k \in DOMAIN h THEN 0 ELSE 1)
     /\ Len(Do(st, Op("keys", 1)).r.k) = Do(st, Op("len", 1)).r.k[1]
     /\ LET c == Do(st, Op("copy", k)).st IN c.hs[1] = h /\ Do(c, Op("delete", k)).st.hs[2] = c.hs[2]
     /\ Sweep(Sweep(st)) = Sweep(st)
     /\ \A w \in {Do(st, Op("weaken", k)).st} : \A i \in DOMAIN h : i # k => Sweep(w).hs[1][i].v = h[i].v
==============================================================================
