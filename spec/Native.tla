------------------------------- MODULE Native -------------------------------
\* C27: what a native method does through the native API is what the same operation does when it is written in SPVM.
\* The state is that of the objects, fields, elements and class variables; an operation is performed by one of two sides,
\* "S" (an SPVM method) or "C" (a native method that uses the native API), and the side is no part of its meaning.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS MaxObj, NV, MaxLen, Kinds, EveryStep
VARIABLES st, hist
vars == <<st, hist>>

NF == 6                                   \* numeric fields: byte short int long float double
Vals == 0..3                              \* 0 is zero; the driver has three values of each type
Strs == 0..3                              \* 0 is undef; the driver has three strings
Free == [k |-> "-", n |-> <<0,0,0,0,0,0>>, o |-> 0, w |-> FALSE, s |-> 0, e |-> <<>>]
New(k) == [Free EXCEPT !.k = k]
Init0 == [h |-> [i \in 1..MaxObj |-> Free], v |-> [i \in 1..NV |-> 0], a |-> 0, g |-> 0, gn |-> <<0,0,0,0,0,0>>, gs |-> 0, lg |-> {}, tmp |-> 0, r |-> <<>>]
V == 1..NV
Live(s) == {i \in 1..MaxObj : s.h[i].k # "-"}
Nodes(s) == {i \in V : s.v[i] # 0}

\* ------------------------------------------------------------------ lifetimes
Strong(s, x) == (\E i \in V : s.v[i] = x) \/ s.a = x \/ s.g = x
                \/ \E y \in Live(s) : (s.h[y].o = x /\ ~s.h[y].w) \/ \E j \in DOMAIN s.h[y].e : s.h[y].e[j] = x
RECURSIVE Settle(_)
Settle(s) == LET dead == {x \in Live(s) : ~Strong(s, x)} IN
   IF dead = {} THEN s
   ELSE Settle([s EXCEPT !.h = [y \in 1..MaxObj |-> IF y \in dead THEN Free ELSE IF s.h[y].w /\ s.h[y].o \in dead THEN [s.h[y] EXCEPT !.o = 0, !.w = FALSE] ELSE s.h[y]],
                         !.lg = @ \cup {x \in dead : s.h[x].k # "A"}])
NextFree(s) == CHOOSE i \in 1..MaxObj : s.h[i].k = "-" /\ \A j \in 1..(i - 1) : s.h[j].k # "-"
Room(s) == \E i \in 1..MaxObj : s.h[i].k = "-"
Ok(s, r) == [Settle(s) EXCEPT !.r = <<"ok">> \o r]
Err(s) == [s EXCEPT !.r = <<"invocant">>]
Dies(s, c, x) == [s EXCEPT !.r = <<"die", c, x>>]
Len3 == 3

\* ------------------------------------------------------------------ types of values, in the order the driver has them
T(b, c, d) == [b |-> b, c |-> c, d |-> d]
Kind == << T("string", "string", 0), T("int", "num", 1), T("NtN", "class", 0), T("NtM", "class", 0), T("NtN", "class", 1), T("Nt_2i", "mul", 1), T("int", "num", 2), T("object", "any", 1),
           T("Int", "class", 0), T("string", "string", 1), T("NtM", "class", 1), T("double", "num", 1), T("NtP", "pointer", 0), T("NtN", "class", 2) >>
Elem(t) == [t EXCEPT !.d = @ - 1]
B(x) == IF x THEN 1 ELSE 0
ObjArray(t) == t.d > 1 \/ (t.d = 1 /\ t.c \notin {"num", "mul"})
\* string, class, pointer class, array, object array, numeric array, multi-numeric array, dimension, length, can be copied
Query(t) == << B(t.d = 0 /\ t.c = "string"), B(t.d = 0 /\ t.c \in {"class", "pointer"}), B(t.d = 0 /\ t.c = "pointer"), B(t.d > 0), B(ObjArray(t)), B(t.d = 1 /\ t.c = "num"), B(t.d = 1 /\ t.c = "mul"),
               t.d, IF t.d > 0 \/ t.c = "string" THEN 3 ELSE 0, B((t.d = 1 /\ t.c \in {"num", "mul"}) \/ (t.d = 0 /\ t.c = "string")) >>
Assign(to, t) == \/ to.b = t.b /\ to.d = t.d
                 \/ to.b = "object" /\ to.d = 0
                 \/ to.b = "object" /\ to.d = 1 /\ ObjArray(t)
                 \/ to.b = "NtN" /\ t.b = "NtM" /\ to.d = t.d
\* ------------------------------------------------------------------ operations
Ops(k, s) ==
  CASE k = "new"  -> IF Room(s) THEN {<<k, i, c>> : i \in V, c \in {0, 1}} ELSE {}
    [] k = "drop" -> {<<k, i>> : i \in Nodes(s)}
    [] k = "move" -> {<<k, i, j>> : i \in V, j \in V}                          \* v[i] = v[j]
    [] k = "setn" -> {<<k, i, f, x>> : i \in V, f \in 1..NF, x \in Vals}
    [] k = "getn" -> {<<k, i, f>> : i \in V, f \in 1..NF}
    [] k = "seto" -> {<<k, i, j>> : i \in V, j \in V}
    [] k = "geto" -> {<<k, i, j>> : i \in V, j \in V}                          \* v[j] = v[i].o
    [] k = "weak" -> {<<k, i>> : i \in V}
    [] k = "unw"  -> {<<k, i>> : i \in V}
    [] k = "isw"  -> {<<k, i>> : i \in V}
    [] k = "sets" -> {<<k, i, x>> : i \in V, x \in Strs}
    [] k = "gets" -> {<<k, i>> : i \in V}
    [] k = "cat"  -> {<<k, i, x>> : i \in {j \in Nodes(s) : s.h[s.v[j]].s # 0}, x \in 1..3}   \* the string and another one
    [] k = "setg" -> {<<k, i>> : i \in V}
    [] k = "getg" -> {<<k, i>> : i \in V}
    [] k = "setgn" -> {<<k, f, x>> : f \in 1..NF, x \in Vals}
    [] k = "getgn" -> {<<k, f>> : f \in 1..NF}
    [] k = "setgs" -> {<<k, x>> : x \in Strs}
    [] k = "getgs" -> {<<k>>}
    [] k = "arr"  -> IF Room(s) THEN {<<k, i, j>> : i \in V, j \in V} ELSE {}  \* a = [v[i], v[j], undef]
    [] k = "aset" -> IF s.a # 0 THEN {<<k, x, i>> : x \in 1..Len3, i \in V} ELSE {}
    [] k = "aget" -> IF s.a # 0 THEN {<<k, x, i>> : x \in 1..Len3, i \in V} ELSE {}
    [] k = "adrop" -> IF s.a # 0 THEN {<<k>>} ELSE {}
    [] k = "virt" -> {<<k, i>> : i \in V}                                      \* a method that the second class overrides, by name
    [] k = "stat" -> {<<k, i>> : i \in Nodes(s)}                               \* the first class's method whatever the object is
    [] k = "isa"  -> {<<k, i>> : i \in V}
    [] k = "die"  -> {<<k, c, x>> : c \in {0, 1}, x \in 1..3}
    [] k = "boom" -> {<<k, i, c, x>> : i \in V, c \in {0, 1}, x \in 1..3}    \* an instance method that throws, called by name
    [] k = "relay" -> {<<k, c, x>> : c \in {0, 1}, x \in 1..3}                \* a method of the other side throws through a method of this side
    [] k = "kind" -> {<<k, a>> : a \in DOMAIN Kind}                           \* a value of a type: what the queries say about it
    [] k = "eisa" -> {<<k, a, b>> : a \in {x \in DOMAIN Kind : (Kind[x].d > 0 /\ Kind[x].c \notin {"num", "mul"}) \/ Kind[x].d > 1}, b \in DOMAIN Kind}    \* can b be an element of a
    [] k = "ist"  -> {<<k, a, b>> : a \in DOMAIN Kind, b \in DOMAIN Kind}     \* the type tests
    [] k = "big"  -> {<<k, f, n>> : f \in 1..NF, n \in {37, 3000}}            \* a long numeric array, and its copy
    [] k = "cpym" -> {<<k, m, n>> : m \in 1..6, n \in {0, 1, 3, 40}}          \* the copy of an array of multi-numeric values
    [] k = "copy" -> {<<k, f, n>> : f \in 1..NF, n \in 0..4}                  \* the copy of a numeric array made by the other side
    [] k = "cpys" -> {<<k, x>> : x \in Strs}                                  \* the copy of a string
    [] k = "ro"   -> {<<k>>}                                                  \* a string that is made read-only
    [] k = "short" -> {<<k, n>> : n \in {0, 5, 299, 300}}
    [] k = "strs" -> {<<k, x, y>> : x \in Strs, y \in Strs}                   \* a string array
    [] k = "box"  -> {<<k, f, x>> : f \in 1..NF, x \in Vals}                  \* a numeric object
    [] k = "muls" -> {<<k, n>> : n \in 0..4}                                  \* an array of multi-numeric values
    [] k = "mdim" -> {<<k, n>> : n \in 0..4}                                  \* a two-dimensional array
    [] k = "ptr"  -> {<<k, x>> : x \in 1..3}
    [] k = "dump" -> {<<k, i>> : i \in V}
    [] k = "tmp"  -> {<<k, n>> : n \in {1, 3, 40, 300}}                             \* n objects that nothing keeps
    [] k = "keep" -> {<<k, n>> : n \in {1, 2, 3, 30, 300}}                    \* n objects used together; says their number, the sum of their values and how many were gone meanwhile
    [] k = "scope" -> {<<k, n>> : n \in {1, 5, 70}}                            \* n objects in a scope of their own; says how many were gone at its end
    [] k = "deep" -> {<<k, d, x>> : d \in 0..5, x \in {0, 1, 2}}               \* methods of both sides call each other, each keeps an object; x: returns, dies, dies with its own error
    [] k = "ident" -> {<<k, i, j>> : i \in V, j \in V}                         \* v[j] = the object given back by a method of the other side
    [] k = "catch" -> {<<k, c, x>> : c \in {0, 1}, x \in 1..3}                 \* calls a method of the other side that throws, and handles it
    [] k = "opt"  -> {<<k, n>> : n \in 1..3}                                   \* the number of arguments given
    [] k = "ref"  -> {<<k, f, x>> : f \in 1..NF, x \in Vals}                   \* a numeric reference argument
    [] k = "mul"  -> {<<k, x, y>> : x \in 0..3, y \in 0..3}                    \* a multi-numeric argument and return value
    [] k = "nums" -> {<<k, f, n>> : f \in 1..NF, n \in 0..4}                   \* a numeric array made by one side and read by the other
Exc(x) == x
Apply(op, s0) ==
  LET s == [s0 EXCEPT !.lg = {}, !.tmp = 0, !.r = <<>>] k == op[1]
      O == s.v[op[2]] IN                                                       \* the object of the operation
  CASE k = "new"  -> LET o == NextFree(s) IN Ok([s EXCEPT !.h[o] = New(IF op[3] = 0 THEN "N" ELSE "M"), !.v[op[2]] = o], <<>>)
    [] k = "drop" -> Ok([s EXCEPT !.v[op[2]] = 0], <<>>)
    [] k = "move" -> Ok([s EXCEPT !.v[op[2]] = s.v[op[3]]], <<>>)
    [] k = "setn" -> IF O = 0 THEN Err(s) ELSE Ok([s EXCEPT !.h[O].n[op[3]] = op[4]], <<>>)
    [] k = "getn" -> IF O = 0 THEN Err(s) ELSE Ok(s, <<s.h[O].n[op[3]]>>)
    [] k = "seto" -> IF O = 0 THEN Err(s) ELSE Ok([s EXCEPT !.h[O].o = s.v[op[3]], !.h[O].w = FALSE], <<>>)
    [] k = "geto" -> IF O = 0 THEN Err(s) ELSE Ok([s EXCEPT !.v[op[3]] = s.h[O].o], <<>>)
    [] k = "weak" -> IF O = 0 THEN Err(s) ELSE Ok([s EXCEPT !.h[O].w = s.h[O].o # 0], <<>>)
    [] k = "unw"  -> IF O = 0 THEN Err(s) ELSE Ok([s EXCEPT !.h[O].w = FALSE], <<>>)
    [] k = "isw"  -> IF O = 0 THEN Err(s) ELSE Ok(s, <<IF s.h[O].w THEN 1 ELSE 0>>)
    [] k = "sets" -> IF O = 0 THEN Err(s) ELSE Ok([s EXCEPT !.h[O].s = op[3]], <<>>)
    [] k = "gets" -> IF O = 0 THEN Err(s) ELSE Ok(s, <<s.h[O].s>>)
    [] k = "cat"  -> Ok(s, <<s.h[O].s, op[3]>>)
    [] k = "setg" -> Ok([s EXCEPT !.g = O], <<>>)
    [] k = "getg" -> Ok([s EXCEPT !.v[op[2]] = s.g], <<>>)
    [] k = "setgn" -> Ok([s EXCEPT !.gn[op[2]] = op[3]], <<>>)
    [] k = "getgn" -> Ok(s, <<s.gn[op[2]]>>)
    [] k = "setgs" -> Ok([s EXCEPT !.gs = op[2]], <<>>)
    [] k = "getgs" -> Ok(s, <<s.gs>>)
    [] k = "arr"  -> LET o == NextFree(s) IN Ok([s EXCEPT !.h[o] = [New("A") EXCEPT !.e = <<s.v[op[2]], s.v[op[3]], 0>>], !.a = o], <<Len3>>)
    [] k = "aset" -> Ok([s EXCEPT !.h[s.a].e[op[2]] = s.v[op[3]]], <<>>)
    [] k = "aget" -> Ok([s EXCEPT !.v[op[3]] = s.h[s.a].e[op[2]]], <<>>)
    [] k = "adrop" -> Ok([s EXCEPT !.a = 0], <<>>)
    [] k = "virt" -> IF O = 0 THEN Err(s) ELSE Ok(s, <<IF s.h[O].k = "M" THEN 2 ELSE 1>>)
    [] k = "stat" -> Ok(s, <<1>>)
    [] k = "isa"  -> Ok(s, IF O = 0 THEN <<0, 0, 0>> ELSE <<1, IF s.h[O].k = "M" THEN 1 ELSE 0, IF s.h[O].k = "N" THEN 1 ELSE 0>>)   \* isa first class, isa second class, is_type first class
    [] k = "die"  -> Dies(s, op[2], op[3])
    [] k = "boom" -> IF O = 0 THEN Err(s) ELSE Dies(s, op[3], op[4])
    [] k = "relay" -> Dies(s, op[2], op[3])
    [] k = "kind" -> Ok(s, Query(Kind[op[2]]) \o <<op[2], op[2]>>)
    [] k = "eisa" -> Ok(s, <<IF Assign(Elem(Kind[op[2]]), Kind[op[3]]) THEN 1 ELSE 0>>)
    [] k = "ist"  -> Ok(s, <<B(Kind[op[2]] = Kind[op[3]]), B(Assign(Kind[op[3]], Kind[op[2]]))>>)
    [] k = "big"  -> Ok(s, <<op[3], 0, 0>>)                                    \* length, differences in it and in its copy
    [] k = "cpym" -> Ok(s, <<op[3], 0>>)
    [] k = "copy" -> Ok(s, [i \in 1..op[3] |-> i % 4])
    [] k = "cpys" -> Ok(s, <<op[2], IF op[2] = 0 THEN 0 ELSE 1, 0>>)             \* the contents, another object, not read-only
    [] k = "ro"   -> Ok(s, <<0, 1>>)
    [] k = "short" -> Ok(s, <<op[2], 1>>)                                      \* its length; the rest is unchanged
    [] k = "strs" -> Ok(s, <<op[3], op[2], 0>>)
    [] k = "box"  -> Ok(s, <<op[3]>>)
    [] k = "muls" -> Ok(s, [i \in 1..(2 * op[2]) |-> i])
    [] k = "mdim" -> Ok(s, <<op[2]>> \o [i \in 1..op[2] |-> i * i])             \* row i has i elements i
    [] k = "ptr"  -> Ok(s, <<op[2], op[2] + 1>>)
    [] k = "dump" -> Ok(s, <<1>>)
    [] k = "tmp"  -> [Ok(s, <<>>) EXCEPT !.tmp = op[2]]
    [] k = "keep" -> [Ok(s, <<op[2], (op[2] * (op[2] - 1)) \div 2, 0>>) EXCEPT !.tmp = op[2]]
    [] k = "scope" -> [Ok(s, <<op[2]>>) EXCEPT !.tmp = op[2]]
    [] k = "deep" -> [(IF op[3] = 0 THEN Ok(s, <<op[2]>>) ELSE Dies(s, op[3] - 1, 1)) EXCEPT !.tmp = op[2]]
    [] k = "ident" -> Ok([s EXCEPT !.v[op[3]] = O], <<>>)
    [] k = "catch" -> Ok(s, <<op[2], op[3]>>)
    [] k = "opt"  -> Ok(s, <<op[2]>>)
    [] k = "ref"  -> Ok(s, <<op[3]>>)
    [] k = "mul"  -> Ok(s, <<op[3], op[2]>>)                                   \* the fields change places
    [] k = "nums" -> Ok(s, [i \in 1..op[3] |-> i % 4])

\* ------------------------------------------------------------------ what can be seen: the result, the objects, what was destroyed, the blocks of memory
Id(x) == x
Str1(x) == IF x = 0 THEN 0 ELSE 1
RECURSIVE SumS(_,_)
SumS(s, i) == IF i > MaxObj THEN 0 ELSE Str1(s.h[i].s) + SumS(s, i + 1)
Blocks(s) == Cardinality(Live(s)) + Cardinality({x \in Live(s) : s.h[x].w}) + SumS(s, 1) + Str1(s.gs)
Show(s) == [r |-> s.r, v |-> s.v, g |-> s.g, e |-> IF s.a = 0 THEN <<>> ELSE s.h[s.a].e, d |-> s.lg, t |-> s.tmp, m |-> Blocks(s)]

Init == st = Init0 /\ hist = <<>>
Do(op, side) == LET s == Apply(op, st) IN st' = s /\ hist' = Append(hist, <<op, side, IF op[1] = "new" \/ op[1] = "arr" THEN NextFree(st) ELSE 0, IF EveryStep THEN <<Show(s)>> ELSE <<>> >>)
Next == /\ Len(hist) < MaxLen
        /\ \E k \in Kinds : \E op \in Ops(k, st) : \E side \in {"S", "C"} : Do(op, side) /\ PrintT(ToJson([tr |-> hist', ob |-> Show(st')]))
Spec == Init /\ [][Next]_vars
NextSim == /\ Len(hist) < MaxLen
           /\ LET en == {k \in (IF Cardinality(Nodes(st)) < 2 THEN {"new", "getg", "aget"} ELSE RandomSubset(4, Kinds)) \cup {"move"} : Ops(k, st) # {}}
                  k == RandomElement(IF Cardinality(Nodes(st)) < 2 /\ "new" \in en THEN {"new"} \cup en ELSE en)
              IN Do(RandomElement(Ops(k, st)), RandomElement({"S", "C"}))
           /\ (Len(hist') = MaxLen => PrintT(ToJson([tr |-> hist', ob |-> Show(st')])))
SpecSim == Init /\ [][NextSim]_vars
View == <<st.h, st.v, st.a, st.g, st.gn, st.gs, Len(hist)>>

\* ------------------------------------------------------------------ properties
NoDangling == /\ \A i \in V : st.v[i] # 0 => st.h[st.v[i]].k \in {"N", "M"}
              /\ (st.g # 0 => st.h[st.g].k \in {"N", "M"}) /\ (st.a # 0 => st.h[st.a].k = "A")
              /\ \A x \in Live(st) : st.h[x].o # 0 => st.h[st.h[x].o].k # "-"
Held == \A x \in Live(st) : Strong(st, x)
FreshZero == \A x \in 1..MaxObj : st.h[x].k = "-" => st.h[x] = Free
\* an error changes nothing
ErrKeeps == [][st'.r # <<>> /\ st'.r[1] # "ok" => st'.h = st.h /\ st'.v = st.v /\ st'.g = st.g /\ st'.gn = st.gn]_vars
=============================================================================
