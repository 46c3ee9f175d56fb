-------------------------------- MODULE Lex --------------------------------
(* C25: literals.  A row is the text of one literal as a sequence of bytes; the value is what Tokenization.pm says: the type and value    *)
(* of a number, the bytes of a character or string, an error, or free where the documentation does not decide.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bytes
CONSTANTS RowFile
Data == JsonDeserialize(RowFile)
Rows == Data.rows        \* [k |-> "num" | "chr" | "str" | "sq", t |-> bytes]
Vars == Data.vars        \* path -> bytes, for the expansions of variables
Err == [r |-> "err"]
Free == [r |-> "free"]
\* ---------------------------------------------------------------- characters
C(s) == Data.chr[s]
Dig(b) == b >= 48 /\ b <= 57
Low(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Hex(b) == Dig(b) \/ (Low(b) >= 97 /\ Low(b) <= 102)
HexV(b) == IF Dig(b) THEN b - 48 ELSE Low(b) - 87
Oct(b) == b >= 48 /\ b <= 55
Word(b) == Dig(b) \/ (Low(b) >= 97 /\ Low(b) <= 122) \/ b = 95
US == 95
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Upto(_,_,_)
Upto(P(_), s, i) == IF i <= Len(s) /\ P(s[i]) THEN Upto(P, s, i + 1) ELSE i       \* the first position from i on that is not P
NoUS(s) == SelectSeq(s, LAMBDA x : x # US)
\* ---------------------------------------------------------------- integers
\* digits ds in base b as a magnitude of 9 bytes; saturated: more than 8 bytes is too large anyway
RECURSIVE Mag(_,_,_,_)
Mag(ds, b, i, acc) == IF i > Len(ds) THEN acc ELSE IF acc[9] # 0 THEN acc ELSE Mag(ds, b, i + 1, Add(Mul(acc, FromInt(b, 9)), FromInt(HexV(ds[i]), 9)))
IntOf(neg, ds, b, long) ==
   LET m == Mag(ds, b, 1, Zero(9))
       w == IF long THEN 8 ELSE 4
       fits == \A i \in (w + 1) .. 9 : m[i] = 0
       v == SubSeq(m, 1, w)
       lim == IF neg THEN [i \in 1 .. w |-> IF i = w THEN 128 ELSE 0] ELSE [i \in 1 .. w |-> IF i = w THEN 127 ELSE 255]
   IN IF ~fits THEN Err
      ELSE IF b = 10 /\ UCmp(v, lim) > 0 THEN Err
      ELSE [r |-> "int", ty |-> IF long THEN "long" ELSE "int", v |-> IF neg THEN Neg(v) ELSE v]
\* ---------------------------------------------------------------- floating point
RECURSIVE Nat10(_,_,_)
Nat10(ds, i, acc) == IF i > Len(ds) THEN acc ELSE Nat10(ds, i + 1, (acc * 10) + (ds[i] - 48))
RECURSIVE NatH(_,_,_)
NatH(ds, i, acc) == IF i > Len(ds) THEN acc ELSE NatH(ds, i + 1, (acc * 16) + HexV(ds[i]))
RECURSIVE PowN(_,_)
PowN(b, k) == IF k = 0 THEN 1 ELSE b * PowN(b, k - 1)
\* the value times 1024 if that is an integer of at most 24 bits, else its text for the C library
Flo(neg, ds, fs, base, ex, ty, txt) ==
   LET n == IF base = 10 THEN Nat10(ds \o fs, 1, 0) ELSE NatH(ds \o fs, 1, 0)
       small == Len(ds \o fs) <= 4
       x == IF base = 10 THEN ex - Len(fs) ELSE ex - 4 * Len(fs)
       q == IF base = 10 THEN (IF x >= 0 THEN n * PowN(10, x) ELSE IF (n * 1024) % PowN(10, -x) = 0 THEN (n * 1024) \div PowN(10, -x) ELSE -1)
            ELSE IF x >= 0 THEN n * PowN(2, x) ELSE IF (n * 1024) % PowN(2, -x) = 0 THEN (n * 1024) \div PowN(2, -x) ELSE -1
       exact == small /\ x >= -6 /\ x <= 3 /\ q >= 0 /\ q < 8388608 /\ (x >= 0 => q < 8192)
   IN IF exact THEN [r |-> "flo", ty |-> ty, v |-> (IF neg THEN -1 ELSE 1) * (IF x >= 0 THEN q * 1024 ELSE q), txt |-> txt]
      ELSE [r |-> "txt", ty |-> ty, v |-> 0, txt |-> txt]
\* an exponent at i: [n, neg, e]; e is the position after it, or 0 if it is malformed
Exponent(s, i) ==
   LET u == Upto(LAMBDA x : x = US, s, i)
       sg == At(s, u) \in {43, 45}
       j == IF sg THEN u + 1 ELSE u
       e == Upto(LAMBDA x : Dig(x) \/ x = US, s, j)
       ds == NoUS(SubSeq(s, j, e - 1))
   IN IF ds = <<>> \/ Len(ds) > 4 THEN [e |-> 0, n |-> 0] ELSE [e |-> e, n |-> (IF At(s, u) = 45 THEN -1 ELSE 1) * Nat10(ds, 1, 0)]
Suffix(b) == IF b \in {76, 108} THEN "long" ELSE IF b \in {70, 102} THEN "float" ELSE IF b \in {68, 100} THEN "double" ELSE "none"
Num(t) ==
   LET neg == At(t, 1) = 45
       s == IF neg THEN Tail(t) ELSE t
       n == Len(s)
       hex == At(s, 1) = 48 /\ At(s, 2) \in {120, 88}
       bin == At(s, 1) = 48 /\ At(s, 2) \in {98, 66}
       oct == At(s, 1) = 48 /\ (Dig(At(s, 2)) \/ At(s, 2) = US)
       HU(b) == Hex(b) \/ b = US
       DU(b) == Dig(b) \/ b = US
   IN IF n = 0 \/ ~Dig(s[1]) THEN Free
   ELSE IF hex THEN
      LET e == Upto(HU, s, 3)
          ds == NoUS(SubSeq(s, 3, e - 1))
          dot == At(s, e) = 46
          e2 == IF dot THEN Upto(HU, s, e + 1) ELSE e
          fs == IF dot THEN NoUS(SubSeq(s, e + 1, e2 - 1)) ELSE <<>>
          p == At(s, e2) \in {112, 80}
          ex == IF p THEN Exponent(s, e2 + 1) ELSE [e |-> e2, n |-> 0]
          suf == IF ex.e = 0 THEN "none" ELSE Suffix(At(s, ex.e))
          end == ex.e + (IF suf = "none" THEN 0 ELSE 1)
      IN IF ds = <<>> THEN (IF dot \/ p THEN Free ELSE Err)
         ELSE IF dot /\ fs = <<>> THEN Free
         ELSE IF ~dot /\ ~p THEN (IF end # n + 1 THEN Err ELSE IntOf(neg, ds, 16, suf = "long"))
         ELSE IF ex.e = 0 THEN Err
         ELSE IF end # n + 1 \/ suf = "long" THEN (IF \E i \in 1 .. n : s[i] \in {43, 45, 46} THEN Free ELSE Err)
         ELSE IF ~p /\ suf # "none" THEN Free
         ELSE Flo(neg, ds, fs, 16, ex.n, IF suf = "float" THEN "float" ELSE "double", (IF neg THEN <<45>> ELSE <<>>) \o NoUS(SubSeq(s, 1, ex.e - 1)))
   ELSE IF bin THEN
      LET e == Upto(DU, s, 3)
          ds == NoUS(SubSeq(s, 3, e - 1))
          long == Suffix(At(s, e)) = "long"
      IN IF e + (IF long THEN 1 ELSE 0) # n + 1 THEN Free
         ELSE IF ds = <<>> \/ \E i \in DOMAIN ds : ds[i] \notin {48, 49} THEN Err
         ELSE IntOf(neg, ds, 2, long)
   ELSE IF oct THEN
      LET e == Upto(DU, s, 2)
          ds == NoUS(SubSeq(s, 2, e - 1))
          long == Suffix(At(s, e)) = "long"
      IN IF ds = <<>> THEN Free
         ELSE IF e + (IF long THEN 1 ELSE 0) # n + 1 THEN Free
         ELSE IF \E i \in DOMAIN ds : ~Oct(ds[i]) THEN (IF s[2] = US THEN Free ELSE Err)
         ELSE IntOf(neg, ds, 8, long)
   ELSE
      LET e == Upto(DU, s, 1)
          ds == NoUS(SubSeq(s, 1, e - 1))
          dot == At(s, e) = 46
          e2 == IF dot THEN Upto(DU, s, e + 1) ELSE e
          fs == IF dot THEN NoUS(SubSeq(s, e + 1, e2 - 1)) ELSE <<>>
          p == At(s, e2) \in {101, 69}
          ex == IF p THEN Exponent(s, e2 + 1) ELSE [e |-> e2, n |-> 0]
          suf == IF ex.e = 0 THEN "none" ELSE Suffix(At(s, ex.e))
          end == ex.e + (IF suf = "none" THEN 0 ELSE 1)
          odd == \E i \in 1 .. n : s[i] \in {43, 45, 46}
      IN IF dot /\ fs = <<>> THEN Free
         ELSE IF ex.e = 0 THEN Err
         ELSE IF end # n + 1 THEN (IF odd THEN Free ELSE Err)
         ELSE IF suf = "long" /\ (dot \/ p) THEN Free
         ELSE IF dot \/ p \/ suf \in {"float", "double"}
              THEN Flo(neg, ds, fs, 10, ex.n, IF suf = "float" THEN "float" ELSE "double", (IF neg THEN <<45>> ELSE <<>>) \o NoUS(SubSeq(s, 1, ex.e - 1)))
         ELSE IntOf(neg, ds, 10, suf = "long")
\* ---------------------------------------------------------------- characters and strings
Simple == Data.simple      \* escape letter (as a number) -> byte
SimpleOf(b) == {p[2] : p \in {Simple[i] : i \in {j \in DOMAIN Simple : Simple[j][1] = b}}}
Raw == {Data.raw[i] : i \in DOMAIN Data.raw}
\* an octal or hexadecimal escape whose letter is at i: [e, b] or e = 0
Esc(s, i) ==
   IF Oct(At(s, i)) THEN
      LET e == CHOOSE j \in i + 1 .. i + 3 : (\A k \in i .. j - 1 : Oct(At(s, k))) /\ (j = i + 3 \/ ~Oct(At(s, j)))
          v == LET RECURSIVE G(_,_) G(k, a) == IF k = e THEN a ELSE G(k + 1, (a * 8) + (s[k] - 48)) IN G(i, 0)
      IN [e |-> IF v > 255 THEN 0 ELSE e, b |-> v % 256]
   ELSE IF At(s, i) = 111 THEN     \* \o{...}
      LET e == Upto(Oct, s, i + 2) n == e - i - 2
      IN IF At(s, i + 1) # 123 \/ n < 1 \/ n > 3 \/ At(s, e) # 125 THEN [e |-> 0, b |-> 0]
         ELSE LET v == LET RECURSIVE G(_,_) G(k, a) == IF k = e THEN a ELSE G(k + 1, (a * 8) + (s[k] - 48)) IN G(i + 2, 0)
              IN [e |-> IF v > 255 THEN 0 ELSE e + 1, b |-> v % 256]
   ELSE                            \* \x
      LET br == At(s, i + 1) = 123
          j == IF br THEN i + 2 ELSE i + 1
          n == IF Hex(At(s, j)) THEN (IF Hex(At(s, j + 1)) THEN 2 ELSE 1) ELSE 0
          e == j + n
      IN IF n = 0 \/ (br /\ At(s, e) # 125) THEN [e |-> 0, b |-> 0]
         ELSE [e |-> IF br THEN e + 1 ELSE e, b |-> IF n = 1 THEN HexV(s[j]) ELSE (16 * HexV(s[j])) + HexV(s[j + 1])]
Chr(t) ==
   IF t = <<>> THEN Err
   ELSE IF t[1] # 92 THEN (IF Len(t) = 1 /\ t[1] >= 32 /\ t[1] <= 126 /\ t[1] # 39 THEN [r |-> "chr", v |-> t[1]] ELSE IF t[1] \in {9, 11, 12} THEN Free ELSE Err)
   ELSE IF Len(t) = 1 THEN Err
   ELSE IF Len(t) = 2 /\ SimpleOf(t[2]) # {} /\ t[2] # 36 THEN [r |-> "chr", v |-> CHOOSE x \in SimpleOf(t[2]) : TRUE]
   ELSE IF Oct(t[2]) \/ t[2] \in {111, 120} THEN LET x == Esc(t, 2) IN IF x.e = Len(t) + 1 THEN [r |-> "chr", v |-> x.b] ELSE Err
   ELSE Err
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
\* the subscripts that follow a variable: [e, path, ok]
RECURSIVE Subs(_,_,_,_)
Subs(s, i, path, first) ==
   LET arrow == At(s, i) = 45 /\ At(s, i + 1) = 62
       j == IF arrow THEN i + 2 ELSE i
       br == At(s, j) = 123   bk == At(s, j) = 91
       e == Upto(Word, s, j + 1)
   IN IF arrow /\ ~br /\ ~bk THEN [e |-> i, path |-> path, ok |-> FALSE]
      ELSE IF ~arrow /\ (first \/ ~(br \/ bk)) THEN [e |-> i, path |-> path, ok |-> TRUE]
      ELSE IF e = j + 1 \/ At(s, e) # (IF br THEN 125 ELSE 93) THEN [e |-> i, path |-> path, ok |-> FALSE]
      ELSE Subs(s, e + 1, path \o SubSeq(s, j, e), FALSE)
VarOf(path) == {Vars[i][2] : i \in {j \in DOMAIN Vars : Vars[j][1] = path}}
\* the expansion at a $ in position i: [e, v, ok]
Expand(s, i) ==
   LET no == [e |-> 0, v |-> <<>>, ok |-> FALSE]
       got(p, e) == IF VarOf(p) = {} THEN no ELSE [e |-> e, v |-> CHOOSE x \in VarOf(p) : TRUE, ok |-> TRUE]
   IN IF i = Len(s) THEN [e |-> i + 1, v |-> <<36>>, ok |-> TRUE]
      ELSE IF s[i + 1] = 64 THEN got(<<64>>, i + 2)
      ELSE IF s[i + 1] = 36 THEN LET e == Upto(Word, s, i + 2) IN IF At(s, e) = 58 /\ At(s, e + 1) = 58 THEN no ELSE got(<<36>> \o SubSeq(s, i + 2, e - 1), e)
      ELSE IF s[i + 1] = 123 THEN LET e == Upto(Word, s, i + 2) IN IF At(s, e) = 125 THEN got(SubSeq(s, i + 2, e - 1), e + 1) ELSE no
      ELSE LET e == Upto(Word, s, i + 1)
               x == Subs(s, e, SubSeq(s, i + 1, e - 1), TRUE)
           IN IF e = i + 1 \/ (At(s, e) = 58 /\ At(s, e + 1) = 58) \/ ~x.ok THEN no ELSE got(x.path, x.e)
RECURSIVE Str(_,_,_)
Str(s, i, out) ==
   IF i > Len(s) THEN [r |-> "str", v |-> out]
   ELSE LET b == s[i] IN
   IF b = 34 THEN Free
   ELSE IF b < 32 /\ b \notin {9, 10, 12} THEN Err
   ELSE IF b = 36 THEN LET x == Expand(s, i) IN IF x.ok THEN Str(s, x.e, out \o x.v) ELSE Free
   ELSE IF b # 92 THEN Str(s, i + 1, Append(out, b))
   ELSE IF i = Len(s) THEN Err
   ELSE LET c == s[i + 1] IN
   IF SimpleOf(c) # {} THEN Str(s, i + 2, Append(out, CHOOSE x \in SimpleOf(c) : TRUE))
   ELSE IF Oct(c) \/ c \in {111, 120} THEN LET x == Esc(s, i + 1) IN IF x.e = 0 THEN Err ELSE Str(s, x.e, Append(out, x.b))
   ELSE IF c = 78 /\ At(s, i + 2) = 123 THEN
      LET e == Upto(Hex, s, i + 5) n == e - i - 5
          u == IF n > 8 \/ n < 1 THEN -1 ELSE IF n = 8 /\ s[i + 5] # 48 THEN 1114112 ELSE NatH(SubSeq(s, i + (IF n = 8 THEN 6 ELSE 5), e - 1), 1, 0)   \* eight digits are at most 10FFFF when the first is 0
      IN IF At(s, i + 3) # 85 \/ At(s, i + 4) # 43 \/ n < 1 \/ At(s, e) # 125 THEN Err
         ELSE IF n > 8 THEN Free
         ELSE IF u > 1114111 \/ (u >= 55296 /\ u <= 57343) THEN Err
         ELSE Str(s, e + 1, out \o Utf8(u))
   ELSE IF c \in {56, 57} THEN Free
   ELSE IF c \in Raw THEN Str(s, i + 2, out \o <<92, c>>)
   ELSE Err
RECURSIVE Sq(_,_,_)
Sq(s, i, out) ==
   IF i > Len(s) THEN [r |-> "str", v |-> out]
   ELSE IF s[i] = 39 THEN Free
   ELSE IF s[i] < 32 /\ s[i] \notin {9, 10, 12} THEN Err
   ELSE IF s[i] # 92 THEN Sq(s, i + 1, Append(out, s[i]))
   ELSE IF At(s, i + 1) \in {39, 92} THEN Sq(s, i + 2, Append(out, s[i + 1]))
   ELSE Err
Eval(row) == CASE row.k = "num" -> Num(row.t) [] row.k = "chr" -> Chr(row.t) [] row.k = "str" -> Str(row.t, 1, <<>>) [] row.k = "sq" -> Sq(row.t, 1, <<>>)
VARIABLE step
Init == step = 0
Next == step < Len(Rows) /\ step' = step + 1
Spec == Init /\ [][Next]_step
\* Laws: separators mean nothing; a minus negates; hexadecimal digits mean the same in either case
Law == step = 0 \/ LET row == Rows[step] v == Eval(row) IN
   /\ JsonSerialize("out_" \o ToString(step) \o ".json", v)
   /\ (row.k = "num" /\ v.r = "int") => LET w == Num(NoUS(row.t)) IN w = v \/ w.r = "free"
   /\ (row.k \in {"str", "sq"} /\ v.r = "str") => Len(v.v) <= 20 * Len(row.t) + 20
=============================================================================
