-------------------------------- MODULE Pack --------------------------------
(* C26: pack and unpack.  A template is a sequence of bytes; values of numeric types are little-endian byte sequences of the width of    *)
(* the type, strings are byte sequences.  Pack gives the binary, Unpack the list of values, or an error; Free where the documentation   *)
(* does not decide.                                                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RowFile
Rows == JsonDeserialize(RowFile)       \* [k |-> "pack" | "unpack", t |-> template, o |-> <<[ty, v]>>, b |-> binary]
Err == [r |-> "err"]
Free == [r |-> "free"]
Big == 1000000000
\* ---------------------------------------------------------------- templates
Size(ch) == CASE ch \in {97, 72, 104, 99, 67} -> 1 [] ch \in {115, 83} -> 2 [] ch \in {108, 76, 102} -> 4 [] ch \in {113, 81, 100} -> 8 [] OTHER -> 0
Base(ch) == CASE ch \in {99, 67} -> "byte" [] ch \in {115, 83} -> "short" [] ch \in {108, 76} -> "int" [] ch \in {113, 81} -> "long" [] ch = 102 -> "float" [] ch = 100 -> "double" [] OTHER -> "string"
Obj(ch) == CASE ch \in {99, 67} -> "Byte" [] ch \in {115, 83} -> "Short" [] ch \in {108, 76} -> "Int" [] ch \in {113, 81} -> "Long" [] ch = 102 -> "Float" [] ch = 100 -> "Double" [] OTHER -> "string"
HexT(ch) == ch \in {72, 104}
Digit(b) == b >= 48 /\ b <= 57
RECURSIVE Digits(_,_)
Digits(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN Digits(t, i + 1) ELSE i
RECURSIVE Num(_,_,_,_)
Num(t, i, e, a) == IF i = e THEN a ELSE IF a > 214748364 \/ (a = 214748364 /\ t[i] > 55) THEN 0 ELSE Num(t, i + 1, e, (a * 10) + (t[i] - 48))     \* 0: no number, or too large
\* a specifier: ch, big (bytes reversed), star, one (a single object and not an array), n
RECURSIVE Parse(_,_,_)
Parse(t, i, out) ==
   IF i > Len(t) THEN [ok |-> TRUE, p |-> out]
   ELSE LET ch == t[i]
            e == i + 1 <= Len(t) /\ t[i + 1] \in {60, 62}
            j == IF e THEN i + 2 ELSE i + 1
            star == j <= Len(t) /\ t[j] = 42
            d == Digits(t, j)
            one == ~star /\ d = j
            n == IF one THEN 1 ELSE Num(t, j, d, 0)
            nx == IF star THEN j + 1 ELSE d
        IN IF Size(ch) = 0 \/ (~star /\ n = 0) \/ (ch = 97 /\ one) THEN [ok |-> FALSE, p |-> <<>>]
           ELSE Parse(t, nx, Append(out, [ch |-> ch, big |-> e /\ t[i + 1] = 62, star |-> star, one |-> one, n |-> n]))
\* ---------------------------------------------------------------- values
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Zeros(k) == [i \in 1 .. k |-> 0]
Hex(b) == Digit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexV(b) == IF Digit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
HexC(v) == IF v < 10 THEN 48 + v ELSE 87 + v
RECURSIVE Flat(_,_)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
\* the bytes of one value, or Err, Free
PackOne(p, o) ==
   IF Base(p.ch) = "string" THEN
      IF o.ty # "string" THEN (IF o.ty = "undef" THEN Free ELSE Err)
      ELSE IF p.ch = 97 THEN LET n == IF p.star THEN Len(o.v) ELSE p.n IN
           IF n > 100000 THEN Free ELSE [r |-> "ok", v |-> [i \in 1 .. n |-> IF i <= Len(o.v) THEN o.v[i] ELSE 0]]
      ELSE LET n == IF p.star THEN Len(o.v) ELSE p.n
               used == IF Len(o.v) < n THEN Len(o.v) ELSE n
               dg(k) == IF k <= used THEN HexV(o.v[k]) ELSE 0
           IN IF \E k \in 1 .. used : ~Hex(o.v[k]) THEN Err
              ELSE IF n > 100000 \/ \E k \in 1 .. Len(o.v) : ~Hex(o.v[k]) THEN Free
              ELSE [r |-> "ok", v |-> [i \in 1 .. ((n + 1) \div 2) |-> IF p.ch = 72 THEN (16 * dg(2*i - 1)) + dg(2*i) ELSE dg(2*i - 1) + (16 * dg(2*i))]]
   ELSE IF p.one THEN IF o.ty # Obj(p.ch) THEN Err ELSE [r |-> "ok", v |-> IF p.big THEN Rev(o.v[1]) ELSE o.v[1]]
   ELSE IF o.ty # Base(p.ch) \o "[]" THEN Err
   ELSE LET n == IF p.star THEN Len(o.v) ELSE p.n IN
        IF n > 2147483647 \div Size(p.ch) THEN Err          \* more than fits in a string
        ELSE IF n > 100000 THEN Free
        ELSE [r |-> "ok", v |-> Flat([i \in 1 .. n |-> IF i > Len(o.v) THEN Zeros(Size(p.ch)) ELSE IF p.big THEN Rev(o.v[i]) ELSE o.v[i]], 1)]
RECURSIVE PackAll(_,_,_,_)
PackAll(ps, os, i, out) ==
   IF i > Len(ps) THEN [r |-> "ok", v |-> out]
   ELSE LET x == PackOne(ps[i], os[i]) IN
        IF x.r = "ok" THEN PackAll(ps, os, i + 1, out \o x.v)
        ELSE IF x.r = "err" THEN Err
        ELSE LET rest == PackAll(ps, os, i + 1, out) IN IF rest.r = "err" THEN Err ELSE Free
PackT(t, os) == LET q == Parse(t, 1, <<>>) IN IF ~q.ok \/ Len(q.p) > Len(os) THEN Err ELSE PackAll(q.p, os, 1, <<>>)
\* ----------------------------------------------------------------
RECURSIVE UnpackAll(_,_,_,_,_)
UnpackAll(ps, b, i, off, out) ==
   IF i > Len(ps) THEN [r |-> "ok", v |-> out]
   ELSE LET p == ps[i]
            sz == Size(p.ch)
            left == Len(b) - off
            n == IF ~p.star THEN p.n ELSE IF HexT(p.ch) THEN 2 * left ELSE left \div sz
            len == IF n > 100000 THEN Big ELSE IF HexT(p.ch) THEN (n + 1) \div 2 ELSE sz * n
            at(k) == b[off + k]
            val == IF p.ch = 97 THEN [ty |-> "string", v |-> SubSeq(b, off + 1, off + len)]
                   ELSE IF HexT(p.ch) THEN [ty |-> "string", v |-> [k \in 1 .. n |-> LET x == at((k + 1) \div 2) IN HexC(IF (k % 2 = 1) = (p.ch = 72) THEN x \div 16 ELSE x % 16)]]
                   ELSE [ty |-> IF p.one THEN Obj(p.ch) ELSE Base(p.ch) \o "[]",
                         v |-> [k \in 1 .. n |-> LET e == SubSeq(b, off + (sz * (k - 1)) + 1, off + (sz * k)) IN IF p.big THEN Rev(e) ELSE e]]
        IN IF off + len > Len(b) THEN Err ELSE UnpackAll(ps, b, i + 1, off + len, Append(out, val))
UnpackT(t, b) == LET q == Parse(t, 1, <<>>) IN IF ~q.ok THEN Err ELSE UnpackAll(q.p, b, 1, 0, <<>>)
Eval(row) == IF row.k = "pack" THEN LET x == PackT(row.t, row.o) IN [p |-> x, u |-> IF x.r = "ok" THEN UnpackT(row.t, x.v) ELSE Free]
             ELSE [p |-> Free, u |-> UnpackT(row.t, row.b)]
VARIABLE step
Init == step = 0
Next == step < Len(Rows) /\ step' = step + 1
Spec == Init /\ [][Next]_step
\* what a value becomes by packing it with a specifier and unpacking it again
Cut(p, v) == LET n == IF p.star THEN Len(v) ELSE p.n IN [i \in 1 .. n |-> IF i <= Len(v) THEN v[i] ELSE IF Base(p.ch) = "string" THEN (IF HexT(p.ch) THEN 48 ELSE 0) ELSE Zeros(Size(p.ch))]
Lower(s) == [i \in 1 .. Len(s) |-> IF s[i] >= 65 /\ s[i] <= 70 THEN s[i] + 32 ELSE s[i]]
Even(v) == IF Len(v) % 2 = 1 THEN Append(v, 48) ELSE v
\* Laws: a star only at the end (or of nothing after it), the values come back; without marks of byte order the binary is that with "<"
Law == step = 0 \/ LET row == Rows[step] q == Parse(row.t, 1, <<>>) v == Eval(row) IN
   /\ JsonSerialize("out_" \o ToString(step) \o ".json", v)
   /\ (v.p.r = "ok" /\ \A i \in 1 .. Len(q.p) : q.p[i].star => i = Len(q.p)) =>
        /\ v.u.r = "ok" /\ Len(v.u.v) = Len(q.p)
        /\ \A i \in 1 .. Len(q.p) : LET p == q.p[i] o == row.o[i] w == Cut(p, o.v) IN
              v.u.v[i].v = IF HexT(p.ch) THEN (IF p.star THEN Even(Lower(w)) ELSE Lower(w)) ELSE w
   /\ v.p.r = "ok" => PackT(SelectSeq(row.t, LAMBDA x : x # 60), row.o) = v.p
=============================================================================
