------------------------------- MODULE Printf -------------------------------
(* C26: sprintf.  A format is a sequence of bytes; an argument is [ty, v]: integers as two's complement bytes, strings as bytes, a       *)
(* floating point number as its sign, its digits before and after the point (exact), or Free where nothing is documented.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bytes
CONSTANTS RowFile
Rows == JsonDeserialize(RowFile)       \* [f |-> format, a |-> <<[ty |-> "Int" ..., v |-> ..]>>]
Err == [r |-> "err"]
Free == [r |-> "free"]
Ok(s) == [r |-> "ok", v |-> s]
Digit(b) == b >= 48 /\ b <= 57
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
\* ---------------------------------------------------------------- integers
Hx(v, up) == IF v < 10 THEN 48 + v ELSE IF up THEN 55 + v ELSE 87 + v
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 48 THEN Strip(Tail(ds)) ELSE ds
HexS(a, up) == Strip([i \in 1 .. 2 * Len(a) |-> LET x == a[Len(a) - ((i - 1) \div 2)] IN Hx(IF i % 2 = 1 THEN x \div 16 ELSE x % 16, up)])
\* division of a magnitude by ten, from the most significant byte down: <<quotient, remainder>>
RECURSIVE Div10(_,_,_,_)
Div10(a, i, r, q) == IF i = 0 THEN <<q, r>> ELSE LET x == (r * 256) + a[i] IN Div10(a, i - 1, x % 10, [q EXCEPT ![i] = x \div 10])
RECURSIVE DecU(_,_)
DecU(a, out) == LET x == Div10(a, Len(a), 0, a) o == <<48 + x[2]>> \o out IN IF IsZero(x[1]) THEN o ELSE DecU(x[1], o)
DecS(a) == IF IsNeg(a) THEN <<45>> \o DecU(Neg(a), <<>>) ELSE DecU(a, <<>>)
\* ---------------------------------------------------------------- floating point: digits before the point, digits after it
RECURSIVE Inc(_,_)
Inc(ds, i) == IF i = 0 THEN <<49>> \o ds ELSE IF ds[i] = 57 THEN Inc([ds EXCEPT ![i] = 48], i - 1) ELSE [ds EXCEPT ![i] = @ + 1]
\* the digits ds rounded to k digits, half to even (exact); may be one digit longer
Round(ds, k) ==
   IF Len(ds) <= k THEN ds \o [i \in 1 .. (k - Len(ds)) |-> 48]
   ELSE LET kept == SubSeq(ds, 1, k)
            d == ds[k + 1]
            more == \E i \in (k + 2) .. Len(ds) : ds[i] # 48
            up == d > 53 \/ (d = 53 /\ (more \/ (k > 0 /\ ds[k] % 2 = 1)))
        IN IF up THEN Inc(kept, k) ELSE kept
FixS(x, p) == LET all == Round(x.ip \o x.fp, Len(x.ip) + p)
                  n == Len(all) - p
              IN SubSeq(all, 1, n) \o (IF p = 0 THEN <<>> ELSE <<46>> \o SubSeq(all, n + 1, Len(all)))
RECURSIVE First(_,_)
First(ds, i) == IF i > Len(ds) THEN 0 ELSE IF ds[i] # 48 THEN i ELSE First(ds, i + 1)
RECURSIVE NoTail(_)
NoTail(ds) == IF Len(ds) > 0 /\ ds[Len(ds)] = 48 THEN NoTail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
AbsI(n) == IF n < 0 THEN -n ELSE n
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecN(n \div 10), 48 + (n % 10))
GenS(x, p0) ==
   LET p == IF p0 = 0 THEN 1 ELSE p0
       ds == x.ip \o x.fp
       f == First(ds, 1)
   IN IF f = 0 THEN <<48>>
      ELSE LET sig == Round(SubSeq(ds, f, Len(ds)), p)
               e == Len(x.ip) - f + (Len(sig) - p)        \* the exponent, after rounding
               m == SubSeq(sig, 1, p)
           IN IF e < -4 \/ e >= p THEN
                 LET t == NoTail(Tail(m)) IN <<m[1]>> \o (IF t = <<>> THEN <<>> ELSE <<46>> \o t) \o <<101, IF e < 0 THEN 45 ELSE 43>> \o (IF AbsI(e) < 10 THEN <<48>> ELSE <<>>) \o DecN(AbsI(e))
              ELSE IF e >= 0 THEN LET t == NoTail(SubSeq(m, e + 2, p)) IN SubSeq(m, 1, e + 1) \o (IF t = <<>> THEN <<>> ELSE <<46>> \o t)
              ELSE <<48, 46>> \o [i \in 1 .. (-e - 1) |-> 48] \o NoTail(m)
\* ---------------------------------------------------------------- padding
Fill(c, n) == [i \in 1 .. (IF n < 0 THEN 0 ELSE n) |-> c]
Pad(s, w, left, c) == IF left THEN s \o Fill(32, w - Len(s)) ELSE Fill(c, w - Len(s)) \o s
\* a number: a plus sign if asked for, zeros after the sign
PadN(s, w, left, zero, plus) ==
   LET neg == s[1] = 45
       sg == IF neg THEN <<45>> ELSE IF plus THEN <<43>> ELSE <<>>
       b == IF neg THEN Tail(s) ELSE s
   IN IF left THEN sg \o b \o Fill(32, w - Len(sg \o b)) ELSE IF zero THEN sg \o Fill(48, w - Len(sg \o b)) \o b ELSE Fill(32, w - Len(sg \o b)) \o sg \o b
Utf8(u) == IF u < 128 THEN <<u>> ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Code(a) == IF \E i \in 4 .. Len(a) : a[i] # 0 THEN -1 ELSE a[1] + (IF Len(a) > 1 THEN (256 * a[2]) + (65536 * a[3]) ELSE 0)
CharS(a) == LET u == Code(a) IN IF u < 0 \/ u > 1114111 \/ (u >= 55296 /\ u <= 57343) THEN <<63>> ELSE Utf8(u)
\* ---------------------------------------------------------------- the format
RECURSIVE Flags(_,_,_)
Flags(f, i, s) == IF At(f, i) \in {48, 43, 45} THEN Flags(f, i + 1, s \cup {f[i]}) ELSE [e |-> i, s |-> s]
RECURSIVE Numb(_,_,_)
Numb(f, i, a) == IF Digit(At(f, i)) THEN Numb(f, i + 1, (a * 10) + (f[i] - 48)) ELSE [e |-> i, n |-> a]
Render(c, fl, w, hp, p, a) ==
   LET left == 45 \in fl zero == 48 \in fl plus == 43 \in fl
       zc == IF zero /\ ~left THEN 48 ELSE 32
       flo == a.ty \in {"Double", "Float"}
       int(ty, s) == IF a.ty # ty THEN Err ELSE IF hp THEN Free ELSE Ok(PadN(s, w, left, zero, plus))
       uns(ty, s) == IF a.ty # ty THEN Err ELSE IF hp THEN Free ELSE Ok(Pad(s, w, left, zc))
   IN CASE c = <<100>> -> int("Int", IF a.ty = "Int" THEN DecS(a.v) ELSE <<>>)
        [] c = <<108, 100>> -> int("Long", IF a.ty = "Long" THEN DecS(a.v) ELSE <<>>)
        [] c = <<117>> -> uns("Int", IF a.ty = "Int" THEN DecU(a.v, <<>>) ELSE <<>>)
        [] c = <<108, 117>> -> uns("Long", IF a.ty = "Long" THEN DecU(a.v, <<>>) ELSE <<>>)
        [] c \in {<<120>>, <<88>>} -> uns("Int", IF a.ty = "Int" THEN HexS(a.v, c = <<88>>) ELSE <<>>)
        [] c \in {<<108, 120>>, <<108, 88>>} -> uns("Long", IF a.ty = "Long" THEN HexS(a.v, c = <<108, 88>>) ELSE <<>>)
        [] c = <<99>> -> IF a.ty \notin {"Byte", "Int"} THEN Err ELSE IF hp THEN Free ELSE IF a.ty = "Byte" /\ a.v[1] > 127 THEN Free ELSE Ok(Pad(CharS(a.v), w, left, zc))
        [] c = <<115>> -> IF a.ty = "undef" THEN Free ELSE IF a.ty # "string" THEN Err ELSE Ok(Pad(IF hp /\ p < Len(a.v) THEN SubSeq(a.v, 1, p) ELSE a.v, w, left, zc))
        [] c \in {<<102>>, <<103>>} -> IF ~flo THEN Err ELSE LET q == IF hp THEN p ELSE 6
                                            s == (IF a.neg THEN <<45>> ELSE <<>>) \o (IF c = <<102>> THEN FixS(a, q) ELSE GenS(a, q)) IN Ok(PadN(s, w, left, zero, plus))
RECURSIVE Go(_,_,_,_,_)
Go(f, i, as, k, out) ==
   IF i > Len(f) THEN Ok(out)
   ELSE IF f[i] # 37 THEN Go(f, i + 1, as, k, Append(out, f[i]))
   ELSE IF i = Len(f) THEN Err
   ELSE IF f[i + 1] = 37 THEN Go(f, i + 2, as, k, Append(out, 37))
   ELSE LET fl == Flags(f, i + 1, {})
            w == Numb(f, fl.e, 0)
            dot == At(f, w.e) = 46
            p == Numb(f, w.e + 1, 0)
            j == IF dot THEN p.e ELSE w.e
            two == At(f, j) = 108
            c == IF two THEN SubSeq(f, j, IF j < Len(f) THEN j + 1 ELSE j) ELSE SubSeq(f, j, IF j <= Len(f) THEN j ELSE j - 1)
            e == j + Len(c)
            hp == dot /\ p.e > w.e + 1
            known == c \in {<<100>>, <<117>>, <<120>>, <<88>>, <<99>>, <<115>>, <<102>>, <<103>>, <<112>>} \/ c \in {<<108, x>> : x \in {100, 117, 120, 88}}
        IN IF j > Len(f) \/ ~known \/ k > Len(as) THEN Err
           ELSE IF c = <<112>> \/ (dot /\ ~hp) THEN (IF Go(f, e, as, k + 1, out).r = "err" THEN Err ELSE Free)
           ELSE LET x == Render(c, fl.s, w.n, hp, p.n, as[k]) IN
                IF x.r = "err" THEN Err
                ELSE LET rest == Go(f, e, as, k + 1, IF x.r = "ok" THEN out \o x.v ELSE out) IN IF x.r = "ok" THEN rest ELSE IF rest.r = "err" THEN Err ELSE Free
Eval(row) == Go(row.f, 1, row.a, 1, <<>>)
VARIABLE step
Init == step = 0
Next == step < Len(Rows) /\ step' = step + 1
Spec == Init /\ [][Next]_step
\* Laws: the result is never shorter than the widths ask for; formatting the parts of a format one by one gives the same
Law == step = 0 \/ LET row == Rows[step] v == Eval(row) IN
   /\ JsonSerialize("out_" \o ToString(step) \o ".json", v)
   /\ (v.r = "ok" /\ Len(row.a) = 1) => LET w == Go(<<97, 37, 37>> \o row.f, 1, row.a, 1, <<>>) IN w.r = "ok" /\ w.v = <<97, 37>> \o v.v
   /\ (\A i \in 1 .. Len(row.f) : row.f[i] # 37) => v = Ok(row.f)
=============================================================================
