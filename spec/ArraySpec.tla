------------------------------ MODULE ArraySpec ------------------------------
(* C17: the functions of Array, and those of Fn that take arrays.  Elements are integers: the value of a number; for      *)
(* strings and objects the identity e, its value is e % 4, -1 is undef, 1000 + e a new object with the value of e.        *)
(* kind: 0 = numbers, 1 = strings, 2 = objects.  Results as in FnSpec: ok, v, and the arrays a and b after the call.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)       \* [f, kind, a, b: arrays, n: offsets and lengths, x: an element]
Undef == <<-99>>
Fail(r) == [ok |-> 0, v |-> 0, a |-> r.a, b |-> r.b]
Free(r) == [ok |-> 2, v |-> 0, a |-> r.a, b |-> r.b]
Ret(r, v) == [ok |-> 1, v |-> v, a |-> r.a, b |-> r.b]
Put(r, x) == [ok |-> 1, v |-> 0, a |-> x, b |-> r.b]
B(p) == IF p THEN 1 ELSE 0
In(x, lo, hi) == lo <= x /\ x <= hi
Range(len, off, l) == off >= 0 /\ off <= len /\ l <= len - off
Rest(len, off, l) == IF l < 0 THEN len - off ELSE l
Cut(s, off, l) == SubSeq(s, off + 1, off + l)
Overlay(d, do, x) == [i \in 1..Len(d) |-> IF In(i, do + 1, do + Len(x)) THEN x[i - do] ELSE d[i]]
Fill(s, off, l, c) == [i \in 1..Len(s) |-> IF In(i, off + 1, off + l) THEN c ELSE s[i]]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
New(e) == IF e = -1 THEN -1 ELSE 1000 + e
NewAll(s) == [i \in 1..Len(s) |-> New(s[i])]
\* a deep copy makes new strings and objects; there is nothing to share in numbers
Deep(r, s) == IF r.kind = 0 THEN s ELSE NewAll(s)
Val(r, e) == IF r.kind = 0 \/ e < 0 THEN e ELSE e % 4
Copied(r, deep) == LET l == Rest(Len(r.a), r.n[1], r.n[2]) IN IF ~Range(Len(r.a), r.n[1], r.n[2]) THEN Fail(r)
                   ELSE LET s == Cut(r.a, r.n[1], l) IN Ret(r, IF deep THEN Deep(r, s) ELSE s)
Equal(r, deep) == IF r.a = Undef \/ r.b = Undef THEN Ret(r, B(r.a = r.b))
                  ELSE Ret(r, B(Len(r.a) = Len(r.b) /\ \A i \in DOMAIN r.a : IF deep THEN Val(r, r.a[i]) = Val(r, r.b[i]) ELSE r.a[i] = r.b[i]))
Moved(r, to, from, l, d, s) == IF to < 0 \/ from < 0 \/ l < 0 THEN Fail(r)
                               ELSE IF ~Range(Len(d), to, l) \/ ~Range(Len(s), from, l) THEN (IF l = 0 THEN Free(r) ELSE Fail(r))
                               ELSE Put(r, Overlay(d, to, Cut(s, from, l)))
Even(r, e) == Val(r, e) % 2 = 0
Mapped(r, e) == IF e = -1 THEN -1 ELSE IF r.kind = 0 THEN e ELSE 1000 + ((Val(r, e) + 1) % 4)    \* the callback of the check
RECURSIVE Expand(_, _)
Expand(r, s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = -1 THEN <<>> ELSE IF Even(r, s[1]) THEN <<s[1], s[1]>> ELSE <<s[1]>>) \o Expand(r, Tail(s))

Result(r) == LET f == r.f a == r.a b == r.b n == r.n IN
  CASE f = "equals_deep" -> Equal(r, TRUE) [] f = "equals_shallow" -> Equal(r, FALSE)
    [] f = "fn_copy" /\ a = Undef -> Ret(r, Undef)
    [] a = Undef \/ (b = Undef /\ f \in {"merge", "memcpy", "memmove"}) -> Fail(r)
    [] f = "copy_deep" -> Copied(r, TRUE) [] f = "copy_shallow" -> Copied(r, FALSE)
    [] f = "fn_copy" -> Ret(r, Deep(r, a)) [] f = "fn_copy_shallow" -> Ret(r, a)
    [] f = "reverse" -> Ret(r, Deep(r, Reverse(a))) [] f = "reverse_inplace" -> Put(r, Reverse(a))
    [] f = "slice" -> IF n[2] < 0 \/ ~Range(Len(a), n[1], n[2]) THEN Fail(r) ELSE Ret(r, Cut(a, n[1], n[2]))
    [] f \in {"memcpy", "memmove"} -> Moved(r, n[1], n[2], n[3], a, b)
    [] f = "memmove_self" -> Moved(r, n[1], n[2], n[3], a, a)
    [] f = "memset" -> IF ~Range(Len(a), n[1], n[2]) THEN (IF n[1] >= 0 /\ n[2] < 0 THEN Put(r, a) ELSE Fail(r)) ELSE Put(r, Fill(a, n[1], Rest(Len(a), n[1], n[2]), r.x))
    [] f = "merge" -> Ret(r, a \o b)
    [] f = "repeat" -> IF n[1] < 0 THEN Fail(r) ELSE Ret(r, Times(a, n[1]))
    [] f = "new_proto" -> IF n[1] < 0 THEN Fail(r) ELSE Ret(r, [i \in 1..n[1] |-> IF r.kind = 0 THEN 0 ELSE -1])
    [] f = "length" -> Ret(r, Len(a))
    [] f = "boxed" -> Ret(r, a)                                   \* to_object_array_T and back to_array_T
    [] f = "grep" -> Ret(r, SelectSeq(a, LAMBDA e : e # -1 /\ Even(r, e)))
    [] f = "map" -> Ret(r, [i \in 1..Len(a) |-> Mapped(r, a[i])])
    [] f = "map_expand" -> Ret(r, Expand(r, a))
    [] f = "shuffle" -> Put(r, a)                                 \* any order: the check compares the elements as a bag
VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Result(Rows[n+1]))

Small == UNION {[1..k -> {0, 1, 5}] : k \in 0..3}
Row(f, a, b, m) == [f |-> f, kind |-> 1, a |-> a, b |-> b, n |-> m, x |-> 0]
Laws == /\ \A a \in Small, i \in 0..3, j \in 0..3, l \in 0..3 :                 \* memmove is memcpy from a copy made before
             Result(Row("memmove_self", a, <<>>, <<i, j, l>>)).a = Result(Row("memcpy", a, a, <<i, j, l>>)).a
        /\ \A a \in Small, b \in Small : LET m == Result(Row("merge", a, b, <<>>)).v IN
             /\ Result(Row("slice", m, <<>>, <<0, Len(a)>>)).v = a /\ Result(Row("slice", m, <<>>, <<Len(a), Len(b)>>)).v = b
             /\ (Result(Row("equals_shallow", a, b, <<>>)).v = 1 => Result(Row("equals_deep", a, b, <<>>)).v = 1)
        /\ \A a \in Small : Len(Result(Row("repeat", a, <<>>, <<3>>)).v) = 3 * Len(a) /\ Reverse(Reverse(a)) = a
LawsOnce == n = 0 => Laws
=============================================================================
