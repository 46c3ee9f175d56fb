------------------------------ MODULE StringSpec ------------------------------
(* C13: strings.  A heap of string objects (bytes, read-only flag) and locations that refer to them: variables of the     *)
(* types string and mutable string, an array element, a field and an object variable.  Each step may write one object     *)
(* and one location at most; nothing else ever changes (NoOtherChange below is checked on every step of every history).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)       \* histories: sequences of [op, d, x, y, n, b]
Locs == 1..7                           \* 1,2: string  3,4: mutable string  5: array element  6: field  7: object variable
Mutable(l) == l \in {3, 4}
In(x, lo, hi) == lo <= x /\ x <= hi
B(p) == IF p THEN 1 ELSE 0
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(len, off, l) == off >= 0 /\ off <= len /\ l <= len - off
Cut(s, off, l) == SubSeq(s, off + 1, off + l)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Space(c) == In(c, 9, 13) \/ c = 32
Digit(c) == In(c, 48, 57)
Signed(c) == IF c > 127 THEN c - 256 ELSE c
\* the order of strings: bytes as unsigned numbers, a proper prefix first, undef before every string
Cmp(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) D == {i \in 1..m : a[i] # b[i]} IN
             IF D # {} THEN (IF a[Min(D)] < b[Min(D)] THEN -1 ELSE 1) ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
RECURSIVE MulAdd(_, _)
MulAdd(ds, c) == IF c = 0 /\ ds = <<>> THEN <<>> ELSE <<c>> \o ds      \* decimal digits, least significant first
RECURSIVE Digits(_, _)
Digits(s, acc) == IF s = <<>> \/ ~Digit(s[1]) THEN acc ELSE Digits(Tail(s), MulAdd(acc, s[1] - 48))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LET i == Max({k \in DOMAIN a : a[k] # b[k]}) IN a[i] < b[i]))
Lim(w, neg) == LET e == IF neg THEN 1 ELSE 0 IN
  CASE w = 8 -> <<7 + e,2,1>> [] w = 16 -> <<7 + e,6,7,2,3>> [] w = 32 -> <<7 + e,4,6,3,8,4,7,4,1,2>>
    [] w = 64 -> <<7 + e,0,8,5,7,7,4,5,8,6,3,0,2,7,3,3,2,2,9>>
\* the number a string starts with, saturated to the width (strtoll)
Number(s, w) == LET ns == {i \in DOMAIN s : ~Space(s[i])} t == IF ns = {} THEN <<>> ELSE SubSeq(s, Min(ns), Len(s))
                    neg == Len(t) > 0 /\ t[1] = 45  u == IF Len(t) > 0 /\ t[1] \in {43, 45} THEN Tail(t) ELSE t  d == Digits(u, <<>>)
                    m == IF Leq(d, Lim(w, neg)) THEN d ELSE Lim(w, neg)
                IN [neg |-> B(neg /\ m # <<>>), ds |-> IF m = <<>> THEN <<0>> ELSE m]

Init0 == [h |-> <<>>, v |-> [l \in Locs |-> 0]]
Bytes(s, l) == s.h[s.v[l]].b
Ok(s, r) == [s |-> s, r |-> r, ok |-> 1]
Throw(s) == [s |-> s, r |-> 0, ok |-> 0]
MayThrow(s) == [s |-> s, r |-> 0, ok |-> 2]        \* nothing changes; an exception is possible
Point(s, l, id) == [s EXCEPT !.v[l] = id]
\* a new string is mutable unless it is a literal
Fresh(s, l, b, ro) == Ok(Point([s EXCEPT !.h = Append(@, [b |-> b, ro |-> ro])], l, Len(s.h) + 1), 0)
Write(s, l, b) == Ok([s EXCEPT !.h[s.v[l]].b = b], 0)
Undef(s, l) == s.v[l] = 0
Frozen(s, l) == s.h[s.v[l]].ro = 1
\* a change of the characters needs a string that is not read-only, whatever the alias it goes through
Change(s, l, F(_)) == IF Undef(s, l) \/ Frozen(s, l) THEN Throw(s) ELSE LET b == F(Bytes(s, l)) IN IF b = <<-1>> THEN Throw(s) ELSE Write(s, l, b)
Step(s, o) ==
  CASE o.op = "lit" -> Fresh(s, o.d, o.b, 1)
    [] o.op = "new" -> IF o.n[1] < 0 THEN Throw(s) ELSE Fresh(s, o.d, [i \in 1..o.n[1] |-> 0], 0)
    [] o.op = "undef" -> Ok(Point(s, o.d, 0), 0)
    [] o.op = "copy" -> IF Undef(s, o.x) THEN Ok(Point(s, o.d, 0), 0) ELSE Fresh(s, o.d, Bytes(s, o.x), 0)
    [] o.op = "bytes" -> IF Undef(s, o.x) THEN Ok(Point(s, o.d, 0), 0) ELSE Fresh(s, o.d, Bytes(s, o.x), 0)
    [] o.op = "cat" -> IF Undef(s, o.x) \/ Undef(s, o.y) THEN Throw(s) ELSE Fresh(s, o.d, Bytes(s, o.x) \o Bytes(s, o.y), 0)
    [] o.op = "append" -> IF Undef(s, o.d) \/ Undef(s, o.x) THEN Throw(s) ELSE Fresh(s, o.d, Bytes(s, o.d) \o Bytes(s, o.x), 0)
    [] o.op = "num" -> Fresh(s, o.d, o.b, 0)                                        \* o.b: the decimal numeral
    [] o.op = "appendnum" -> IF Undef(s, o.d) THEN Throw(s) ELSE Fresh(s, o.d, Bytes(s, o.d) \o o.b, 0)
    [] o.op = "interp" -> IF Undef(s, o.x) \/ Undef(s, o.y) THEN Throw(s) ELSE Fresh(s, o.d, o.b \o Bytes(s, o.x) \o o.b \o Bytes(s, o.y), 0)
    [] o.op = "substr" -> IF Undef(s, o.x) \/ ~Range(Len(Bytes(s, o.x)), o.n[1], o.n[2]) \/ o.n[2] < 0 THEN Throw(s) ELSE Fresh(s, o.d, Cut(Bytes(s, o.x), o.n[1], o.n[2]), 0)
    [] o.op = "move" -> IF Mutable(o.d) /\ ~Mutable(o.x) /\ ~Undef(s, o.x) /\ Frozen(s, o.x) THEN Throw(s) ELSE Ok(Point(s, o.d, s.v[o.x]), 0)
    [] o.op = "freeze" -> IF Undef(s, o.x) THEN Ok(s, 0) ELSE Ok([s EXCEPT !.h[s.v[o.x]].ro = 1], 0)
    [] o.op = "set" -> LET F(b) == IF In(o.n[1], 0, Len(b) - 1) THEN [b EXCEPT ![o.n[1] + 1] = o.n[2]] ELSE <<-1>> IN Change(s, o.x, F)
    [] o.op = "inc" -> LET F(b) == IF In(o.n[1], 0, Len(b) - 1) THEN [b EXCEPT ![o.n[1] + 1] = (@ + o.n[2]) % 256] ELSE <<-1>> IN Change(s, o.x, F)
    [] o.op = "reverse" -> Change(s, o.x, Reverse)
    [] o.op \in {"shorten", "chomp"} /\ Mutable(o.x) /\ ~Undef(s, o.x) /\ Frozen(s, o.x) -> IF o.op = "shorten" /\ o.n[1] < 0 THEN Throw(s) ELSE MayThrow(s)
    [] o.op = "shorten" -> LET F(b) == IF o.n[1] < 0 THEN <<-1>> ELSE IF o.n[1] < Len(b) THEN Cut(b, 0, o.n[1]) ELSE b IN Change(s, o.x, F)
    [] o.op = "chomp" -> LET F(b) == IF Len(b) > 0 /\ b[Len(b)] = 10 THEN Cut(b, 0, Len(b) - (IF Len(b) > 1 /\ b[Len(b) - 1] = 13 THEN 2 ELSE 1)) ELSE b IN Change(s, o.x, F)
    [] o.op = "memset" -> LET F(b) == IF o.n[2] < 0 \/ ~Range(Len(b), o.n[2], o.n[3]) \/ o.n[3] < 0 THEN <<-1>> ELSE [i \in 1..Len(b) |-> IF In(i, o.n[2] + 1, o.n[2] + o.n[3]) THEN o.n[1] ELSE b[i]] IN Change(s, o.x, F)
    [] o.op = "memcpy" -> LET F(b) == LET c == Bytes(s, o.y) k == o.n[1] IN IF k > Len(b) \/ k > Len(c) THEN <<-1>> ELSE Cut(c, 0, k) \o Cut(b, k, Len(b) - k) IN
         IF Undef(s, o.y) THEN Throw(s) ELSE Change(s, o.x, F)
    [] o.op = "get" -> IF Undef(s, o.x) THEN Throw(s) ELSE LET b == Bytes(s, o.x) IN IF In(o.n[1], 0, Len(b) - 1) THEN Ok(s, Signed(b[o.n[1] + 1])) ELSE Throw(s)
    [] o.op = "length" -> Ok(s, IF Undef(s, o.x) THEN 0 ELSE Len(Bytes(s, o.x)))
    [] o.op = "is_ro" -> Ok(s, IF Undef(s, o.x) THEN 0 ELSE B(Frozen(s, o.x)))
    [] o.op = "same" -> Ok(s, B(s.v[o.x] = s.v[o.y]))
    [] o.op = "cmp" -> LET c == IF Undef(s, o.x) /\ Undef(s, o.y) THEN 0 ELSE IF Undef(s, o.x) THEN -1 ELSE IF Undef(s, o.y) THEN 1 ELSE Cmp(Bytes(s, o.x), Bytes(s, o.y)) IN
         Ok(s, CASE o.n[1] = 0 -> c [] o.n[1] = 1 -> B(c = 0) [] o.n[1] = 2 -> B(c # 0) [] o.n[1] = 3 -> B(c < 0) [] o.n[1] = 4 -> B(c <= 0) [] o.n[1] = 5 -> B(c > 0) [] o.n[1] = 6 -> B(c >= 0))
    [] o.op = "tonum" -> Ok(s, IF Undef(s, o.x) THEN [neg |-> 0, ds |-> <<0>>] ELSE Number(Bytes(s, o.x), o.n[1]))
View(s) == [l \in Locs |-> IF Undef(s, l) THEN [u |-> 1, b |-> <<>>, ro |-> 0] ELSE [u |-> 0, b |-> Bytes(s, l), ro |-> B(Frozen(s, l))]]
\* what a step may change: one location, the bytes of one string that is not read-only, or one flag from 0 to 1
NoOtherChange(s, t) == LET m == IF Len(s.h) < Len(t.h) THEN Len(s.h) ELSE Len(t.h) IN
  /\ Len(t.h) >= Len(s.h) /\ Cardinality({l \in Locs : s.v[l] # t.v[l]}) <= 1
  /\ Cardinality({i \in 1..m : s.h[i] # t.h[i]}) <= 1
  /\ \A i \in 1..m : (s.h[i].ro = 1 => t.h[i] = s.h[i]) /\ (s.h[i].b # t.h[i].b => Len(s.h) = Len(t.h))
RECURSIVE Exec(_, _, _)
Exec(s, ops, acc) == IF ops = <<>> THEN acc
                     ELSE LET x == Step(s, ops[1]) IN
                          IF ~NoOtherChange(s, x.s) \/ (x.ok # 1 /\ x.s # s) THEN Assert(FALSE, <<"change", s, ops[1]>>)
                          ELSE Exec(x.s, Tail(ops), Append(acc, [ok |-> x.ok, r |-> x.r, v |-> View(x.s)]))
VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Exec(Init0, Rows[n+1], <<>>))
Small == UNION {[1..k -> {0, 97, 200}] : k \in 0..3}
\* the order is total, and equality in it is equality of the bytes
Laws == \A a \in Small, b \in Small : Cmp(a, b) = 0 - Cmp(b, a) /\ (Cmp(a, b) = 0) = (a = b) /\ \A c \in {<<>>, <<97>>, <<200, 0>>} : Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
LawsOnce == n = 0 => Laws
=============================================================================
