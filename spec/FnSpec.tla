------------------------------- MODULE FnSpec -------------------------------
(* C17: the functions of Fn on strings and code points.  A string is a sequence of bytes, Undef stands for undef.         *)
(* Result: ok = 1 (v: the value returned; s: the strings after the call), ok = 0 (an exception, nothing changed),         *)
(* ok = 2 (not specified).                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)       \* [f, s: strings, n: integers, l: a list of strings]
Undef == <<-1>>
IsUndef(x) == Len(x) = 1 /\ x[1] = -1
Fail(r) == [ok |-> 0, v |-> 0, s |-> r.s]
Free(r) == [ok |-> 2, v |-> 0, s |-> r.s]
Ret(r, v) == [ok |-> 1, v |-> v, s |-> r.s]
Put(r, x) == [ok |-> 1, v |-> 0, s |-> [r.s EXCEPT ![1] = x]]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
In(x, lo, hi) == lo <= x /\ x <= hi
\* ranges are compared without computing sums: an offset or length may be as large as an int
Range(len, off, l) == off >= 0 /\ off <= len /\ l <= len - off
Rest(len, off, l) == IF l < 0 THEN len - off ELSE l
Cut(s, off, l) == SubSeq(s, off + 1, off + l)
\* ---- classes of ASCII characters
Upper(c) == In(c, 65, 90)
Lower(c) == In(c, 97, 122)
Digit(c) == In(c, 48, 57)
Alpha(c) == Upper(c) \/ Lower(c)
Alnum(c) == Alpha(c) \/ Digit(c)
Space(c) == In(c, 9, 13) \/ c = 32
XDigit(c) == Digit(c) \/ In(c, 65, 70) \/ In(c, 97, 102)
Graph(c) == In(c, 33, 126)
B(p) == IF p THEN 1 ELSE 0
Classes(c) == <<B(Alnum(c)), B(Alpha(c)), B(c = 32 \/ c = 9), B(In(c, 0, 31) \/ c = 127), B(Digit(c)), B(Graph(c)), B(XDigit(c)), B(Lower(c)),
                B(Space(c) /\ c # 11), B(Alnum(c) \/ c = 95), B(In(c, 32, 126)), B(Graph(c) /\ ~Alnum(c)), B(Space(c)), B(Upper(c)), B(XDigit(c))>>
ToLower(c) == IF Upper(c) THEN c + 32 ELSE c
ToUpper(c) == IF Lower(c) THEN c - 32 ELSE c
\* ---- UTF-8
At(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE -1
Cont(b) == In(b, 128, 191)
Bad == [n |-> 0, cp |-> -1]
Dec(s, o) == LET a == At(s, o) b == At(s, o + 1) c == At(s, o + 2) d == At(s, o + 3) IN
  CASE In(a, 0, 127) -> [n |-> 1, cp |-> a]
    [] In(a, 194, 223) /\ Cont(b) -> [n |-> 2, cp |-> (a - 192) * 64 + b - 128]
    [] In(a, 224, 239) /\ Cont(b) /\ Cont(c) -> LET cp == (a - 224) * 4096 + (b - 128) * 64 + c - 128 IN IF cp < 2048 \/ In(cp, 55296, 57343) THEN Bad ELSE [n |-> 3, cp |-> cp]
    [] In(a, 240, 244) /\ Cont(b) /\ Cont(c) /\ Cont(d) -> LET cp == (a - 240) * 262144 + (b - 128) * 4096 + (c - 128) * 64 + d - 128 IN
         IF cp < 65536 \/ cp > 1114111 THEN Bad ELSE [n |-> 4, cp |-> cp]
    [] OTHER -> Bad
Scalar(cp) == In(cp, 0, 55295) \/ In(cp, 57344, 1114111)
Enc(cp) == IF cp < 128 THEN <<cp>> ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
           ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
           ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
RECURSIVE Points(_, _, _)      \* the code points from offset o on; the whole string is valid iff good
Points(s, o, acc) == IF o >= Len(s) THEN [good |-> TRUE, cps |-> acc]
                     ELSE LET d == Dec(s, o) IN IF d.n = 0 THEN [good |-> FALSE, cps |-> acc] ELSE Points(s, o + d.n, Append(acc, d.cp))
RECURSIVE Flat(_, _)
Flat(ss, sep) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Flat(Tail(ss), sep)
EncAll(cps) == Flat(Map(cps, Enc), <<>>)
\* ---- searching
Occurs(s, sub, i) == i + Len(sub) <= Len(s) /\ Cut(s, i, Len(sub)) = sub
Found(s, sub, b, e) == {i \in b..(e - Len(sub)) : Occurs(s, sub, i)}             \* occurrences in the characters b .. e - 1
Search(r, s, sub, b, e, first) ==
  IF IsUndef(s) \/ IsUndef(sub) THEN Fail(r) ELSE LET L == Len(s) E == IF e < 0 THEN L ELSE e IN
  IF ~(b >= 0 /\ b <= L /\ E <= L /\ E >= b) THEN Fail(r)
  ELSE IF sub = <<>> THEN Ret(r, IF first THEN b ELSE E)
  ELSE LET S == Found(s, sub, b, IF E = L THEN L ELSE E + 1) IN Ret(r, IF S = {} THEN -1 ELSE IF first THEN Min(S) ELSE Max(S))
RECURSIVE Parts(_, _, _, _)
Parts(s, sep, o, left) == LET S == {i \in o..(Len(s) - Len(sep)) : Occurs(s, sep, i)} IN
  IF left = 1 \/ S = {} THEN <<Cut(s, o, Len(s) - o)>> ELSE LET m == Min(S) IN <<Cut(s, o, m - o)>> \o Parts(s, sep, m + Len(sep), left - 1)
RECURSIVE Strip(_)
Strip(p) == IF Len(p) > 0 /\ p[Len(p)] = <<>> THEN Strip(SubSeq(p, 1, Len(p) - 1)) ELSE p
\* ---- numbers in strings (strtol): decimal digits, least significant first
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, base, c) == IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, base, c \div 10))
                       ELSE LET x == ds[1] * base + c IN <<x % 10>> \o MulAdd(Tail(ds), base, x \div 10)
DigitOf(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE IF Lower(c) THEN c - 87 ELSE 99
RECURSIVE Number(_, _, _)
Number(s, base, acc) == IF s = <<>> THEN acc ELSE Number(Tail(s), base, MulAdd(acc, base, DigitOf(s[1])))
RECURSIVE Trunc(_)
Trunc(ds) == IF Len(ds) > 0 /\ ds[Len(ds)] = 0 THEN Trunc(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Leq(a, b) == \/ Len(a) < Len(b)
             \/ Len(a) = Len(b) /\ (a = b \/ LET i == Max({k \in DOMAIN a : a[k] # b[k]}) IN a[i] < b[i])
Lim(bits, neg) == IF bits = 32 THEN (IF neg THEN <<8,4,6,3,8,4,7,4,1,2>> ELSE <<7,4,6,3,8,4,7,4,1,2>>)
                  ELSE (IF neg THEN <<8,0,8,5,7,7,4,5,8,6,3,0,2,7,3,3,2,2,9>> ELSE <<7,0,8,5,7,7,4,5,8,6,3,0,2,7,3,3,2,2,9>>)
ToNum(r, s, base, bits) ==
  IF IsUndef(s) \/ base \notin {2, 8, 10, 16} THEN Fail(r) ELSE
  LET ns == {i \in DOMAIN s : ~Space(s[i])}
      t == IF ns = {} THEN <<>> ELSE SubSeq(s, Min(ns), Len(s))
      neg == Len(t) > 0 /\ t[1] = 45
      u == IF Len(t) > 0 /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
      w == IF base = 16 /\ Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {88, 120} THEN SubSeq(u, 3, Len(u)) ELSE u IN
  IF w = <<>> \/ \E i \in DOMAIN w : DigitOf(w[i]) >= base THEN Fail(r)
  ELSE LET ds == Trunc(Number(w, base, <<>>)) IN
       IF ~Leq(ds, Lim(bits, neg)) THEN Fail(r) ELSE Ret(r, [neg |-> B(neg /\ ds # <<>>), ds |-> IF ds = <<>> THEN <<0>> ELSE ds])
\* ---- tr: a range is "a" or "a-z"
TrRange(p) == LET q == Points(p, 0, <<>>) c == q.cps IN
  IF ~q.good THEN <<>> ELSE IF Len(c) = 1 THEN <<c[1], c[1]>> ELSE IF Len(c) = 3 /\ c[2] = 45 /\ c[1] <= c[3] THEN <<c[1], c[3]>> ELSE <<>>
Tr(r, s, p, q) ==
  IF IsUndef(s) \/ IsUndef(p) \/ IsUndef(q) THEN Fail(r) ELSE LET a == TrRange(p) b == TrRange(q) x == Points(s, 0, <<>>) IN
  IF a = <<>> \/ b = <<>> \/ ~x.good THEN Fail(r)
  ELSE IF a[2] - a[1] > b[2] - b[1] THEN Free(r)
  ELSE LET F(c) == IF In(c, a[1], a[2]) THEN b[1] + c - a[1] ELSE c y == Map(x.cps, F) IN
       IF \E i \in DOMAIN y : ~Scalar(y[i]) THEN Fail(r) ELSE Ret(r, EncAll(y))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Overlay(d, do, x) == [i \in 1..Len(d) |-> IF In(i, do + 1, do + Len(x)) THEN x[i - do] ELSE d[i]]
Fill(s, off, l, c) == [i \in 1..Len(s) |-> IF In(i, off + 1, off + l) THEN c ELSE s[i]]
Cmp(a, b) == LET D == {i \in DOMAIN a : a[i] # b[i]} IN IF D = {} THEN 0 ELSE IF a[Min(D)] < b[Min(D)] THEN -1 ELSE 1
HexVal(s) == LET RECURSIVE H(_, _) H(t, acc) == IF t = <<>> THEN acc ELSE H(Tail(t), acc * 16 + DigitOf(t[1]))
                 n == Len(s) lo == H(IF n > 4 THEN SubSeq(s, n - 3, n) ELSE s, 0) hi == IF n > 4 THEN H(SubSeq(s, 1, n - 4), 0) ELSE 0
             IN (IF hi > 32767 THEN hi - 65536 ELSE hi) * 65536 + lo
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Trim(s) == LET S == {i \in DOMAIN s : ~Space(s[i])} IN IF S = {} THEN <<>> ELSE SubSeq(s, Min(S), Max(S))
Chomped(s) == LET n == Len(s) IN IF n >= 2 /\ s[n-1] = 13 /\ s[n] = 10 THEN SubSeq(s, 1, n - 2) ELSE IF n >= 1 /\ s[n] = 10 THEN SubSeq(s, 1, n - 1) ELSE s
UndefOf(r, k) == \E i \in 1..k : IsUndef(r.s[i])

Result(r) == LET f == r.f  s == IF Len(r.s) > 0 THEN r.s[1] ELSE <<>>  t == IF Len(r.s) > 1 THEN r.s[2] ELSE <<>>  n == r.n IN
  CASE f = "classes" -> Ret(r, Classes(n[1]))
    [] f = "to_lower" -> Ret(r, ToLower(n[1])) [] f = "to_upper" -> Ret(r, ToUpper(n[1]))
    [] f = "abs" -> Ret(r, IF n[1] < 0 THEN 0 - n[1] ELSE n[1])
    [] f = "pow" -> IF n[2] < 0 \/ (n[1] = 0 /\ n[2] = 0) THEN Fail(r) ELSE Ret(r, Pow(n[1], n[2]))
    [] f = "chr" -> Ret(r, IF Scalar(n[1]) THEN Enc(n[1]) ELSE Undef)
    [] f = "tr" -> Tr(r, s, t, r.s[3])
    [] f = "index" -> Search(r, s, t, n[1], n[2], TRUE)
    [] f = "rindex" -> Search(r, s, t, n[2], n[1], FALSE)
    [] f = "contains" -> LET x == Search(r, s, t, n[1], n[2], TRUE) IN IF x.ok = 1 THEN Ret(r, B(x.v >= 0)) ELSE x
    [] f = "join" -> IF IsUndef(s) \/ (Len(r.l) = 1 /\ r.l[1] = <<-2>>) THEN Fail(r) ELSE Ret(r, Flat([i \in 1..Len(r.l) |-> IF IsUndef(r.l[i]) THEN <<>> ELSE r.l[i]], s))
    [] f = "substr_replace" /\ IsUndef(t) -> IF IsUndef(s) \/ ~Range(Len(s), n[1], n[2]) THEN Fail(r) ELSE Ret(r, Cut(s, n[1], Rest(Len(s), n[1], n[2])))
    [] f = "to_int" -> ToNum(r, s, n[1], 32) [] f = "to_long" -> ToNum(r, s, n[1], 64)
    [] UndefOf(r, Len(r.s)) -> Fail(r)
    [] f = "lc" -> Ret(r, Map(s, ToLower)) [] f = "uc" -> Ret(r, Map(s, ToUpper))
    [] f = "lcfirst" -> Ret(r, IF s = <<>> THEN s ELSE <<ToLower(s[1])>> \o Tail(s))
    [] f = "ucfirst" -> Ret(r, IF s = <<>> THEN s ELSE <<ToUpper(s[1])>> \o Tail(s))
    [] f = "trim" -> Ret(r, Trim(s))
    [] f = "chompr" -> Ret(r, Chomped(s)) [] f = "chomp" -> Put(r, Chomped(s))
    [] f = "reverse" -> Ret(r, Reverse(s)) [] f = "reverse_inplace" -> Put(r, Reverse(s))
    [] f = "copy" -> Ret(r, s)
    [] f = "repeat" -> IF n[1] < 0 THEN Fail(r) ELSE Ret(r, Flat([i \in 1..n[1] |-> s], <<>>))
    [] f = "substr" -> LET l == Rest(Len(s), n[1], n[2]) IN IF n[1] < 0 \/ ~Range(Len(s), n[1], n[2]) THEN Fail(r) ELSE Ret(r, Cut(s, n[1], l))
    [] f = "substr_replace" -> LET l == Rest(Len(s), n[1], n[2]) IN IF n[1] < 0 \/ ~Range(Len(s), n[1], n[2]) THEN Fail(r)
                               ELSE Ret(r, Cut(s, 0, n[1]) \o t \o Cut(s, n[1] + l, Len(s) - n[1] - l))
    [] f = "split" -> IF s = <<>> THEN Fail(r) ELSE LET p == Parts(t, s, 0, IF n[1] > 0 THEN n[1] ELSE -1) IN Ret(r, IF n[1] = 0 THEN Strip(p) ELSE p)
    [] f = "equals_range" -> IF n[1] < 0 \/ n[2] < 0 THEN Fail(r) ELSE
         IF n[3] < 0 \/ (n[3] = 0 /\ (n[1] > Len(s) \/ n[2] > Len(t))) THEN Free(r) ELSE
         Ret(r, B(Range(Len(s), n[1], n[3]) /\ Range(Len(t), n[2], n[3]) /\ Cut(s, n[1], n[3]) = Cut(t, n[2], n[3])))
    [] f = "memcmp" -> IF n[3] < 0 \/ ~Range(Len(s), n[1], n[3]) \/ ~Range(Len(t), n[2], n[3]) THEN Fail(r) ELSE Ret(r, Cmp(Cut(s, n[1], n[3]), Cut(t, n[2], n[3])))
    [] f \in {"memcpy", "memmove"} -> IF n[1] < 0 \/ n[2] < 0 \/ n[3] < 0 THEN Fail(r) ELSE IF ~Range(Len(s), n[1], n[3]) \/ ~Range(Len(t), n[2], n[3])
         THEN (IF n[3] = 0 THEN Free(r) ELSE Fail(r)) ELSE Put(r, Overlay(s, n[1], Cut(t, n[2], n[3])))
    [] f = "memmove_self" -> IF n[1] < 0 \/ n[2] < 0 \/ n[3] < 0 THEN Fail(r) ELSE IF ~Range(Len(s), n[1], n[3]) \/ ~Range(Len(s), n[2], n[3])
         THEN (IF n[3] = 0 THEN Free(r) ELSE Fail(r)) ELSE Put(r, Overlay(s, n[1], Cut(s, n[2], n[3])))
    [] f \in {"memset_char", "init_string"} -> IF n[2] < 0 /\ f = "init_string" /\ n[3] < 1 THEN Free(r) ELSE IF n[2] < 0 \/ ~Range(Len(s), n[2], n[3])
         THEN (IF n[2] >= 0 /\ n[3] < 0 THEN Put(r, s) ELSE Fail(r)) ELSE Put(r, Fill(s, n[2], Rest(Len(s), n[2], n[3]), n[1] % 256))
    [] f = "replace_chars" -> LET R(c) == IF (IF c > 127 THEN c - 256 ELSE c) = n[1] THEN n[2] % 256 ELSE c IN Put(r, Map(s, R))
    [] f = "shorten" -> IF n[1] < 0 THEN Fail(r) ELSE Put(r, IF n[1] >= Len(s) THEN s ELSE SubSeq(s, 1, n[1]))
    [] f = "shorten_null_char" -> LET Z == {i \in DOMAIN s : s[i] = 0} IN Put(r, IF Z = {} THEN s ELSE SubSeq(s, 1, Min(Z) - 1))
    [] f = "hex" -> IF ~In(Len(s), 1, 8) \/ \E i \in DOMAIN s : ~XDigit(s[i]) THEN Fail(r) ELSE Ret(r, HexVal(s))
    [] f = "get_code_point" -> IF n[1] < 0 \/ n[1] >= Len(s) THEN Fail(r) ELSE LET d == Dec(s, n[1]) IN IF d.n = 0 THEN Fail(r) ELSE Ret(r, <<d.cp, n[1] + d.n>>)
    [] f = "look_code_point" -> IF n[1] < 0 \/ n[1] >= Len(s) THEN Fail(r) ELSE LET d == Dec(s, n[1]) IN IF d.n = 0 THEN Fail(r) ELSE Ret(r, <<d.cp, n[1]>>)
    [] f = "ord" -> LET d == Dec(s, 0) IN IF s = <<>> \/ d.n = 0 THEN Fail(r) ELSE Ret(r, d.cp)
    [] f = "to_code_points" -> LET p == Points(s, 0, <<>>) IN IF ~p.good THEN Fail(r) ELSE Ret(r, p.cps)
    [] f = "to_utf8_chars" -> LET p == Points(s, 0, <<>>) IN IF ~p.good THEN Fail(r) ELSE Ret(r, Map(p.cps, Enc))
    [] f = "utf8_length" -> LET p == Points(s, 0, <<>>) IN IF ~p.good THEN Fail(r) ELSE Ret(r, Len(p.cps))
    [] f = "utf8_substr" -> LET p == Points(s, 0, <<>>) m == Len(p.cps) IN
         IF n[1] < 0 THEN Fail(r)
         ELSE IF n[2] < 0 THEN (IF ~p.good THEN Fail(r) ELSE IF n[1] > m THEN Free(r) ELSE Ret(r, EncAll(Cut(p.cps, n[1], m - n[1]))))
         ELSE IF ~Range(m, n[1], n[2]) THEN Fail(r) ELSE IF ~p.good THEN Free(r) ELSE Ret(r, EncAll(Cut(p.cps, n[1], n[2])))
    [] f = "change_endian" -> IF n[1] <= 0 \/ n[2] < 0 \/ ~Range(Len(s), n[2], n[1]) THEN Fail(r) ELSE Put(r, Overlay(s, n[2], Reverse(Cut(s, n[2], n[1]))))

VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Result(Rows[n+1]))

\* laws of the specification itself
SmallStr == UNION {[1..k -> {44, 97, 195, 169}] : k \in 0..4}
Row(f, s, m) == [f |-> f, s |-> s, n |-> m, l |-> <<>>]
Laws == /\ \A cp \in {0, 65, 127, 128, 255, 2047, 2048, 55295, 57344, 65535, 65536, 1114111} : Dec(Enc(cp), 0) = [n |-> Len(Enc(cp)), cp |-> cp]
        /\ \A s \in SmallStr : LET p == Points(s, 0, <<>>) IN p.good => EncAll(p.cps) = s                         \* UTF-8 is one to one
        /\ \A s \in SmallStr : Flat(Parts(s, <<44>>, 0, -1), <<44>>) = s                                          \* join undoes split
        /\ \A s \in SmallStr : Reverse(Reverse(s)) = s /\ Trim(Trim(s)) = Trim(s)
        /\ \A s \in SmallStr, sub \in {<<>>, <<97>>, <<97, 97>>} : LET a == Result(Row("index", <<s, sub>>, <<0, -1>>)).v b == Result(Row("rindex", <<s, sub>>, <<-1, 0>>)).v
             IN (a = -1) = (b = -1) /\ a <= b
LawsOnce == n = 0 => Laws
=============================================================================
