------------------------------ MODULE Exchange ------------------------------
(* C18: values crossing from Perl to SPVM and back.  A type is [c, b, d, r]: category, basic type, dimension, reference.  *)
(* A Perl value is [k |-> "u"] undef, "sc" a scalar (i: its integer value as 8 bytes, f and d: its value as float and     *)
(* double, b: its bytes as a string, p: created as a string), "a" array reference, "h" hash reference, "code", "r"        *)
(* reference to a value, "o" an SPVM object of the pool.  An SPVM value is k = "i" (bytes), "f" (token), "U" undef,       *)
(* "S" string, "M" multi-numeric, "A" array, "O" pool object.  "R" refused, "F" left open.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT RowFile
In == JsonDeserialize(RowFile)
Rows == In.rows
Pool == In.pool          \* id -> type of the object
Meth == In.methods
W == [byte |-> 1, short |-> 2, int |-> 4, long |-> 8, float |-> 4, double |-> 8]
IsInt(b) == b \in {"byte", "short", "int", "long"}
Fields == In.fields      \* multi-numeric type -> sequence of field names
FieldOf == In.fieldof    \* ... -> numeric type of its fields

Super(c) == CASE c = "EB" -> {"EB", "EA"} [] OTHER -> {c}
Satisfies(c, i) == i = c \/ c \in {"EB", "EC"}          \* the classes that have EI's method
Sub(t, f) == t.b \in Super(f.b) \/ (t.c = "ifc" /\ f.c \in {"cls", "ifc"} /\ Satisfies(f.b, t.b))
ObjArr(f) == f.d > 1 \/ (f.d = 1 /\ f.c \notin {"num", "mul"})
\* may an object whose type is f be held by a place of type t
Holds(t, f) == CASE t.c = "any" /\ t.d = 0 -> TRUE
                 [] t.c = "any" -> ObjArr(f)
                 [] t.c \in {"cls", "ifc"} -> t.d = f.d /\ f.c \in {"cls", "ifc"} /\ Sub(t, f)
                 [] OTHER -> t.d = f.d /\ t.b = f.b

R == [k |-> "R"]
F == [k |-> "F"]
U == [k |-> "U"]
Num(b, v) == IF v.k # "sc" THEN R ELSE IF IsInt(b) THEN [k |-> "i", v |-> SubSeq(v.i, 1, W[b])] ELSE [k |-> "f", v |-> IF b = "float" THEN v.f ELSE v.d]
Zero(b) == IF IsInt(b) THEN [k |-> "i", v |-> [j \in 1..W[b] |-> 0]] ELSE [k |-> "f", v |-> "0"]
All(s, build) == IF \E j \in DOMAIN s : s[j].k = "R" THEN R ELSE build      \* refused as soon as one part is
Hash(b, v) == LET fs == Fields[b]
                  Val(n) == LET x == SelectSeq(v.e, LAMBDA y : y.n = n) IN IF x = <<>> THEN R ELSE Num(FieldOf[b], x[1].v)
                  xs == [j \in DOMAIN fs |-> Val(fs[j])]
              IN IF v.k # "h" THEN R ELSE All(xs, [k |-> "M", v |-> xs])
Str(v) == CASE v.k = "u" -> U [] v.k = "sc" -> [k |-> "S", v |-> v.b]
            [] v.k = "o" /\ Pool[v.id].c = "str" /\ Pool[v.id].d = 0 -> [k |-> "O", id |-> v.id] [] OTHER -> R
Obj(t, v) == CASE v.k = "u" -> U [] v.k = "o" /\ Holds(t, Pool[v.id]) -> [k |-> "O", id |-> v.id] [] OTHER -> R
ElemOf(t) == [t EXCEPT !.d = t.d - 1]
Elem(t, v) == LET e == ElemOf(t) IN IF e.d > 0 THEN Obj(e, v) ELSE
              CASE e.c = "num" -> Num(e.b, v) [] e.c = "mul" -> Hash(e.b, v) [] e.c = "str" -> Str(v) [] OTHER -> Obj(e, v)
Conv(t, v) ==
  CASE t.r = 1 -> IF v.k # "r" THEN R ELSE IF t.c = "mul" THEN Hash(t.b, v.v) ELSE IF v.v.k = "u" THEN F ELSE Num(t.b, v.v)
    [] t.d > 0 -> CASE v.k = "u" -> U
                    [] v.k = "o" -> Obj(t, v)
                    [] v.k = "a" -> LET xs == [j \in DOMAIN v.e |-> Elem(t, v.e[j])] IN All(xs, [k |-> "A", b |-> t.b, d |-> t.d, v |-> xs])
                    [] OTHER -> R
    [] t.c = "num" -> Num(t.b, v)
    [] t.c = "mul" -> Hash(t.b, v)
    [] t.c = "str" -> Str(v)
    [] t.c = "any" -> IF v.k = "sc" /\ v.p = 1 THEN [k |-> "S", v |-> v.b] ELSE Obj(t, v)
    [] OTHER -> Obj(t, v)

Out(ok, log, refs, ret) == [ok |-> ok, log |-> log, refs |-> refs, ret |-> ret]
Refused == Out(0, <<>>, <<>>, U)
Free == Out(2, <<>>, <<>>, U)
\* is there a method to call
Callable(r, m) == IF r.how = "class" THEN r.cls = m.cls /\ m.inst = 0
                  ELSE m.inst = 1 /\ (IF r.cls = "" THEN m.cls \in Super(Pool[r.inv].b) ELSE r.cls = m.cls /\ m.cls \in Super(Pool[r.inv].b))
Call(r) == LET m == Meth[r.m] IN
  IF ~Callable(r, m) \/ Len(r.a) < m.req \/ Len(r.a) > Len(m.args) THEN Refused ELSE
  LET xs == [j \in DOMAIN m.args |-> IF j <= Len(r.a) THEN Conv(m.args[j].t, r.a[j])
                                     ELSE IF m.args[j].t.c = "num" /\ m.args[j].t.d = 0 THEN Num(m.args[j].t.b, m.args[j].v) ELSE U]
      \* what the method writes through its references
      Wr(j) == SelectSeq(m.writes, LAMBDA w : w.a = j)
      After(j) == LET w == Wr(j) t == m.args[j].t IN
                  IF w = <<>> THEN xs[j] ELSE IF t.c = "mul" THEN [xs[j] EXCEPT !.v[w[1].f] = Num(FieldOf[t.b], w[1].v)] ELSE Num(t.b, w[1].v)
      RefIdx == SelectSeq([j \in DOMAIN m.args |-> j], LAMBDA j : m.args[j].t.r = 1)
  IN IF \E j \in DOMAIN xs : xs[j].k = "R" THEN Refused
     ELSE IF \E j \in DOMAIN xs : xs[j].k = "F" THEN Free
     ELSE IF m.die = 1 THEN Out(3, xs, <<>>, U)
     ELSE Out(1, xs, [q \in DOMAIN RefIdx |-> [a |-> RefIdx[q], v |-> After(RefIdx[q])]], IF m.ret = 0 THEN U ELSE xs[m.ret])
\* an array object made from Perl and worked on through its methods
New(r) == LET x == IF r.how = "list" THEN Conv(r.t, r.v)
                   ELSE IF r.how = "len" THEN (IF r.n < 0 THEN R ELSE [k |-> "A", b |-> r.t.b, d |-> r.t.d, v |-> [j \in 1..r.n |->
                        IF r.t.d > 1 \/ r.t.c \notin {"num", "mul"} THEN U ELSE IF r.t.c = "num" THEN Zero(r.t.b) ELSE [k |-> "M", v |-> [q \in DOMAIN Fields[r.t.b] |-> Zero(FieldOf[r.t.b])]]]])
                   ELSE LET nb == IF r.t.c = "num" THEN r.t.b ELSE FieldOf[r.t.b]
                            w == W[nb] nf == IF r.t.c = "num" THEN 1 ELSE Len(Fields[r.t.b])
                            Piece(j) == LET p == SubSeq(r.bin, j * w + 1, j * w + w) IN [k |-> IF IsInt(nb) THEN "i" ELSE "x", v |-> p]
                        IN IF Len(r.bin) % (w * nf) # 0 THEN R ELSE
                           [k |-> "A", b |-> r.t.b, d |-> 1, v |-> [j \in 1..(Len(r.bin) \div (w * nf)) |-> IF r.t.c = "num" THEN Piece(j - 1)
                                       ELSE [k |-> "M", v |-> [q \in 1..nf |-> Piece((j - 1) * nf + q - 1)]]]]
          IN x
ElemIsObj(t) == t.d > 1 \/ t.c \notin {"num", "mul"}
RECURSIVE Ops(_,_,_,_)
Ops(r, a, j, acc) == IF j > Len(r.ops) THEN [a |-> a, res |-> acc] ELSE
  LET o == r.ops[j]
      inr == o.i >= 0 /\ o.i < Len(a.v)
      x == IF ElemIsObj(r.t) THEN Obj(ElemOf(r.t), o.v) ELSE IF r.t.c = "mul" THEN R ELSE Num(r.t.b, o.v)
  IN IF o.o = "get" THEN Ops(r, a, j + 1, Append(acc, IF ~inr \/ (r.t.c = "mul" /\ r.t.d = 1) THEN R ELSE a.v[o.i + 1]))
     ELSE IF ~inr \/ x.k = "R" THEN Ops(r, a, j + 1, Append(acc, R))
     ELSE Ops(r, [a EXCEPT !.v[o.i + 1] = x], j + 1, Append(acc, [k |-> "ok"]))
Arr(r) == LET x == New(r) IN IF x.k # "A" THEN [ok |-> IF x.k = "R" THEN 0 ELSE 1, v |-> x, res |-> <<>>]
          ELSE LET e == Ops(r, x, 1, <<>>) IN [ok |-> 1, v |-> e.a, res |-> e.res]
Result(r) == IF r.f = "call" THEN Call(r) ELSE Arr(r)

VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", Result(Rows[n + 1]))
\* laws
Types == {m.args[j].t : m \in {Meth[q] : q \in DOMAIN Meth}, j \in 1..1}
AllT == UNION {{Meth[q].args[j].t : j \in DOMAIN Meth[q].args} : q \in DOMAIN Meth}
Laws == /\ \A id \in DOMAIN Pool : \A t \in AllT : t.r = 0 /\ Conv(t, [k |-> "o", id |-> id]).k = "O" => Holds(t, Pool[id])   \* type safety
        /\ \A t \in AllT : t.d > 0 => Conv(t, [k |-> "u"]) = U
        /\ \A t \in AllT : t.d > 0 => Conv(t, [k |-> "a", e |-> <<>>]).k = "A"
        /\ \A t \in AllT : t.d = 0 /\ t.c \in {"num", "mul"} => Conv(t, [k |-> "u"]).k \in {"R", "F"}
        /\ \A t \in AllT : \A id \in DOMAIN Pool : t.c = "any" /\ t.d = 0 => Conv(t, [k |-> "o", id |-> id]).k = "O"
LawsOnce == n = 0 => Laws
=============================================================================
