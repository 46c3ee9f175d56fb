------------------------------ MODULE Compiler ------------------------------
(* C20 (and once-only initialization of C21): class files, compilation at run time and the classes of the runtime.                  *)
(* A content is [v, e, u, r, k]: its version, the parent class ("" none), the classes it uses, a class of `if (require R)` ("" none)*)
(* and whether it is faulty (k = 1).  A class of the runtime keeps the content it was compiled from, its class variable G, and       *)
(* whether its INIT block has run.  Compiling is all or nothing.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, RowFile
Data == JsonDeserialize(RowFile)
Rows == Data.rows
Classes == {Data.classes[i] : i \in DOMAIN Data.classes}
NoFile == [v |-> 0, e |-> "", u |-> <<>>, r |-> "", k |-> 0]
None == [c |-> NoFile, g |-> 0, i |-> FALSE, q |-> 0]
S0 == [f |-> [c \in Classes |-> NoFile], l |-> [c \in Classes |-> None], a |-> <<>>]
IsLoaded(s, c) == s.l[c].c # NoFile
Exists(s, c) == s.f[c] # NoFile
Uses(x) == {x.u[i] : i \in DOMAIN x.u} \cup (IF x.e = "" THEN {} ELSE {x.e})
\* the classes that compiling the contents of todo has to load
RECURSIVE Close(_,_)
Close(s, acc) == LET more == {c \in (UNION {Uses(s.f[d]) \cup (IF s.f[d].r = "" \/ ~Exists(s, s.f[d].r) THEN {} ELSE {s.f[d].r}) : d \in acc}) \ acc : ~IsLoaded(s, c)}
                 IN IF more = {} THEN acc ELSE Close(s, acc \cup more)
Seeds(s, x) == {c \in Uses(x) \cup (IF x.r = "" \/ ~Exists(s, x.r) THEN {} ELSE {x.r}) : ~IsLoaded(s, c)}
\* the content of a class as the compilation of the classes cl sees it
Sees(s, cl, c) == IF c \in cl THEN s.f[c] ELSE s.l[c].c
RECURSIVE Anc(_,_,_,_)
Anc(s, cl, c, seen) == IF c = "" THEN FALSE ELSE IF c \in seen THEN TRUE ELSE Anc(s, cl, Sees(s, cl, c).e, seen \cup {c})
Faulty(s, cl) == {c \in cl : ~Exists(s, c) \/ s.f[c].k = 1 \/ Anc(s, cl, c, {})}
Known(s, cl, c) == c \in cl \/ IsLoaded(s, c)
New(s, cl, x) == [c |-> x, g |-> 0, i |-> FALSE, q |-> IF x.r = "" THEN 0 ELSE IF Known(s, cl, x.r) THEN Sees(s, cl, x.r).v ELSE -1]
Load(s, cl) == [s EXCEPT !.l = [c \in Classes |-> IF c \in cl THEN New(s, cl, s.f[c]) ELSE s.l[c]]]
Compile(s, c) == IF IsLoaded(s, c) THEN <<s, TRUE, {}>>
                 ELSE LET cl == Close(s, {c}) bad == Faulty(s, cl) IN IF bad = {} THEN <<Load(s, cl), TRUE, {}>> ELSE <<s, FALSE, bad>>
Anon(s, x) == LET cl == Close(s, Seeds(s, x)) bad == Faulty(s, cl)
              IN IF bad = {} /\ x.k = 0 THEN <<[Load(s, cl) EXCEPT !.a = Append(@, New(s, cl, x))], TRUE, {}>> ELSE <<s, FALSE, bad \cup (IF x.k = 1 THEN {""} ELSE {})>>
InitOne(x) == IF x.c = NoFile \/ x.i THEN x ELSE [x EXCEPT !.i = TRUE, !.g = @ + 100 * x.c.v]
Inits(s) == [s EXCEPT !.l = [c \in Classes |-> InitOne(s.l[c])], !.a = [j \in DOMAIN s.a |-> InitOne(s.a[j])]]
\* one operation: the new state, whether it succeeds, the faulty classes
Do(s, o) == CASE o.o = "write" -> <<[s EXCEPT !.f[o.c] = o.x], TRUE, {}>>
              [] o.o = "rm" -> <<[s EXCEPT !.f[o.c] = NoFile], TRUE, {}>>
              [] o.o = "comp" -> Compile(s, o.c)
              [] o.o = "anon" -> Anon(s, o.x)
              [] o.o = "init" -> <<Inits(s), TRUE, {}>>
              [] o.o = "set" -> IF IsLoaded(s, o.c) THEN <<[s EXCEPT !.l[o.c].g = o.n], TRUE, {}>> ELSE <<s, FALSE, {}>>
\* what a program sees of a class: its version, that of its parent, of the classes it uses, of the required class, its variable
SeeC(s, x) == [v |-> x.c.v, p |-> IF x.c.e = "" THEN 0 ELSE s.l[x.c.e].c.v, u |-> [i \in DOMAIN x.c.u |-> s.l[x.c.u[i]].c.v], q |-> x.q, g |-> x.g]
Obs(s) == [l |-> [c \in Classes |-> IF IsLoaded(s, c) THEN <<SeeC(s, s.l[c])>> ELSE <<>>], a |-> [j \in DOMAIN s.a |-> SeeC(s, s.a[j])]]
RECURSIVE Run(_,_,_,_)
Run(s, ops, j, acc) == IF j > Len(ops) THEN acc ELSE LET t == Do(s, ops[j]) IN
                       Run(t[1], ops, j + 1, Append(acc, [ok |-> t[2], bad |-> t[3], obs |-> Obs(t[1])]))

VARIABLES n, st
\* rows: histories to replay
RowInit == n = 0 /\ st = S0
RowNext == n < Len(Rows) /\ n' = n + 1 /\ st' = st /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", Run(S0, Rows[n + 1], 1, <<>>))
\* the machine, explored: two classes, contents of a few shapes
Contents == {x \in {[v |-> 1, e |-> e, u |-> u, r |-> r, k |-> k] : e \in {""} \cup Classes, u \in {<<>>} \cup {<<c>> : c \in Classes}, r \in {""} \cup Classes, k \in {0, 1}} :
              Cardinality(Uses(x) \cup {x.r}) <= 2 /\ (x.k = 1 => Uses(x) = {})}
MInit == n = 0 /\ st = S0
MOps == {[o |-> "write", c |-> c, x |-> x] : c \in Classes, x \in Contents} \cup {[o |-> o, c |-> c] : o \in {"rm", "comp"}, c \in Classes} \cup {[o |-> "init"]}
          \cup {[o |-> "anon", x |-> x] : x \in {y \in Contents : y.e = "" /\ y.k = 0}} \cup {[o |-> "set", c |-> c, n |-> 7] : c \in Classes}
MNext == n < Data.depth /\ n' = n + 1 /\ \E o \in MOps : (o.o = "anon" => Len(st.a) < 1) /\ st' = Do(st, o)[1]
Spec == (IF Mode = "rows" THEN RowInit ELSE MInit) /\ [][IF Mode = "rows" THEN RowNext ELSE MNext]_<<n, st>>
\* laws: what is loaded is complete, sound and never changes
Closed == \A c \in Classes : IsLoaded(st, c) => st.l[c].c.k = 0 /\ \A d \in Uses(st.l[c].c) : IsLoaded(st, d)
NoCycle == \A c \in Classes : IsLoaded(st, c) => ~Anc(st, {}, c, {})
Stable == [][\A c \in Classes : IsLoaded(st, c) => st'.l[c].c = st.l[c].c /\ st'.l[c].q = st.l[c].q]_st
AllOrNothing == \A c \in Classes : LET t == Compile(st, c) IN
    /\ ~t[2] => t[1] = st
    /\ t[2] => IsLoaded(t[1], c) /\ Compile(t[1], c) = <<t[1], TRUE, {}>>
    /\ \A d \in Classes : LET t2 == Compile(st, d) IN t[2] /\ t2[2] =>     \* the order does not matter, as far as optional classes go
         LET ab == Compile(t[1], d) ba == Compile(t2[1], c) IN ab[2] /\ ba[2] /\ \A x \in Classes : IsLoaded(ab[1], x) = IsLoaded(ba[1], x)
=============================================================================
