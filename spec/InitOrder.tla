------------------------------ MODULE InitOrder ------------------------------
(* C21: the order and multiplicity of INIT methods.                                                                                  *)
(* A class is [k, e, u, b]: kind ("c" class, "i" interface, "m" multi-numeric), parent ("" none), the classes it uses, in order, and *)
(* its INIT blocks, merged into one list of items.  Calling the INIT method of a class that is not yet initialized marks it, then    *)
(* calls the INIT method of its parent and of the classes it uses, in order, then runs the items; calling it again does nothing.     *)
(* An initialization (program start, load by Perl, call_init_methods) calls the INIT method of every loaded class, in any order, and *)
(* stops at the first exception.                                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, RowFile
Data == JsonDeserialize(RowFile)
Rows == Data.rows
SeqSet(s) == {s[j] : j \in DOMAIN s}
Deps(G, c) == (IF G[c].e = "" THEN <<>> ELSE <<G[c].e>>) \o SelectSeq(G[c].u, LAMBDA d : G[d].k = "c")
\* a state: the initialized classes, the class variables, what was logged
Log(s, w) == [s EXCEPT !.log = Append(@, w)]
G0(G) == [i |-> {}, g |-> [c \in DOMAIN G |-> 0], log |-> <<>>]
ShowG(s, c) == c \o "=" \o ToString(s.g[c])
RECURSIVE InitC(_,_,_), Run(_,_,_,_), Do(_,_,_,_)
\* -> [s, ok, m]
InitC(G, s, c) == IF c \in s.i THEN [s |-> s, ok |-> TRUE, m |-> "", st |-> ""]
                  ELSE LET d == Deps(G, c)
                           its == [j \in DOMAIN d |-> [o |-> "init", c |-> d[j]]] \o <<[o |-> "start"]>> \o G[c].b
                           r == Run(G, [s EXCEPT !.i = @ \cup {c}], c, its)
                       IN [r EXCEPT !.st = ""]
Run(G, s, c, its) == IF its = <<>> THEN [s |-> s, ok |-> TRUE, m |-> "", st |-> ""]
                     ELSE LET r == Do(G, s, c, Head(its)) IN IF r.st # "" THEN r ELSE Run(G, r.s, c, Tail(its))
Ok(s) == [s |-> s, ok |-> TRUE, m |-> "", st |-> ""]
\* one item; st: "" go on, "ret" leave the method, "die"
Do(G, s, c, x) == CASE x.o = "start" -> Ok(Log(s, "+" \o c))
                    [] x.o = "log" -> Ok(Log(s, c \o ":" \o ToString(x.n)))
                    [] x.o = "add" -> Ok([s EXCEPT !.g[c] = @ + x.n])
                    [] x.o = "get" -> Ok(Log(s, ShowG(s, x.c)))
                    [] x.o = "set" -> Ok([s EXCEPT !.g[x.c] = x.n])
                    [] x.o = "init" -> LET r == InitC(G, s, x.c) IN IF r.ok THEN r ELSE [r EXCEPT !.st = "die"]
                    [] x.o = "evinit" -> LET r == InitC(G, s, x.c) IN IF r.ok THEN r ELSE Ok(Log(r.s, "!" \o r.m))
                    [] x.o = "ret" -> [Ok(s) EXCEPT !.st = "ret"]
                    [] x.o = "die" -> [s |-> s, ok |-> FALSE, m |-> "d" \o c, st |-> "die"]
                    [] x.o = "evdie" -> Ok(Log(s, "!e" \o c))
\* ------------------------------------------------------------- trace validation
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the states an initialization of the loaded classes l can end in, having logged log and ended with ok / message m
RECURSIVE Inits(_,_,_,_,_,_)
Inits(G, s, l, log, ok, m) == IF l \subseteq s.i THEN (IF ok /\ s.log = log THEN {s} ELSE {})
                              ELSE UNION {LET r == InitC(G, s, c) IN IF ~IsPrefix(r.s.log, log) THEN {}
                                                                     ELSE IF r.ok THEN Inits(G, r.s, l, log, ok, m)
                                                                     ELSE IF ~ok /\ r.s.log = log /\ r.m = m THEN {r.s} ELSE {} : c \in l \ s.i}
One(r, log, ok, m) == IF r.s.log = log /\ r.ok = ok /\ r.m = m THEN {r.s} ELSE {}
\* the states op can lead to, given what was observed: x.l loaded classes, x.log, x.ok, x.m
After(G, s0, op, x) == LET s == [s0 EXCEPT !.log = <<>>] l == SeqSet(x.l) IN
   CASE op.o = "init" -> Inits(G, s, l, x.log, x.ok, x.m)
     [] op.o = "comp" -> IF x.log = <<>> /\ x.ok THEN {s} ELSE {}
     [] op.o \in {"get", "set"} -> One(Do(G, s, op.c, op), x.log, x.ok, x.m)
     [] op.o = "call" -> One(InitC(G, s, op.c), x.log, x.ok, x.m)
RECURSIVE Valid(_,_,_,_,_)
Valid(G, ss, ops, obs, j) == IF j > Len(ops) THEN 0
                             ELSE LET t == UNION {After(G, s, ops[j], obs[j]) : s \in ss} IN IF t = {} THEN j ELSE Valid(G, t, ops, obs, j + 1)
\* ------------------------------------------------------------- the machine, explored
VARIABLES n, gr, st, thrown, fin
vars == <<n, gr, st, thrown, fin>>
RowInit == n = 0 /\ gr = <<>> /\ st = <<>> /\ thrown = {} /\ fin = {}
RowNext == n < Len(Rows) /\ n' = n + 1 /\ UNCHANGED <<gr, st, thrown, fin>>
           /\ LET r == Rows[n + 1] IN JsonSerialize("out_" \o ToString(n + 1) \o ".json", [bad |-> Valid(r.g, {G0(r.g)}, r.ops, r.obs, 1)])
Cs == {"A", "B", "C"}
USeqs == {<<>>} \cup {<<c>> : c \in Cs} \cup (IF Data.depth < 2 THEN {} ELSE {<<c, d>> : c \in Cs, d \in Cs})
Pars == {p \in [Cs -> Cs \cup {""}] : LET up(c) == IF c = "" THEN "" ELSE p[c] IN \A c \in Cs : p[c] # c /\ up(p[c]) # c /\ up(up(p[c])) # c}
Bodies == {<<>>, <<[o |-> "die"]>>} \cup (IF Data.depth < 2 THEN {} ELSE {<<[o |-> "evinit", c |-> "C"]>>})
End == <<[o |-> "log", n |-> 0]>>          \* a body that ends logs it
MInit == /\ n = 0 /\ thrown = {} /\ fin = {}
         /\ \E p \in Pars, u \in [Cs -> USeqs], b \in [Cs -> Bodies], i \in {"c", "i"} :
              gr = [c \in Cs |-> [k |-> IF c = "C" /\ p["A"] # "C" /\ p["B"] # "C" /\ p["C"] = "" THEN i ELSE "c", e |-> p[c], u |-> u[c], b |-> b[c] \o End]]
         /\ st = G0(gr)
MNext == \E c \in Cs \ st.i : LET r == InitC(gr, st, c) IN /\ st' = r.s /\ n' = n + 1 /\ UNCHANGED gr
                                /\ thrown' = (IF r.ok THEN thrown ELSE thrown \cup {r.m}) /\ fin' = fin
Init == IF Mode = "rows" THEN RowInit ELSE MInit
Next == IF Mode = "rows" THEN RowNext ELSE MNext
Spec == Init /\ [][Next]_vars
Pos(w) == {j \in DOMAIN st.log : st.log[j] = w}
RECURSIVE Reach(_,_)
Reach(G, acc) == LET m == acc \cup UNION {SeqSet(Deps(G, c)) : c \in acc} IN IF m = acc THEN acc ELSE Reach(G, m)
Needs(c) == Reach(gr, SeqSet(Deps(gr, c)))
Dies(c) == \E j \in DOMAIN gr[c].b : gr[c].b[j].o = "die"
\* every body at most once
Once == \A c \in Cs : Cardinality(Pos("+" \o c)) <= 1 /\ Cardinality(Pos(c \o ":0")) <= 1
\* a body starts after the bodies of the parent and the used classes have ended, unless they are in a cycle with it or cannot end
After1 == \A c \in Cs : \A d \in SeqSet(Deps(gr, c)) : \A j \in Pos("+" \o c) :
             (\E i \in Pos(d \o ":0") : i < j) \/ c \in Needs(d) \/ d = c \/ (\E x \in {d} \cup Needs(d) : Dies(x)) \/ (\E x \in Cs : \E q \in DOMAIN gr[x].b : gr[x].b[q].o = "evinit")
\* when everything is initialized, a body that has not run is that of a class that throws or needs one that does
All == Cs \subseteq st.i => \A c \in Cs : Pos(c \o ":0") # {} \/ (\E x \in {c} \cup Needs(c) : Dies(x)) \/ (\E x \in Cs : \E q \in DOMAIN gr[x].b : gr[x].b[q].o = "evinit")
Laws == Mode = "model" => Once /\ After1 /\ All
==============================================================================
