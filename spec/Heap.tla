-------------------------------- MODULE Heap --------------------------------
(* C01, C02: objects, references to them from local variables, class variables, fields and array elements,   *)
(* weak fields, scopes, calls, returns, exceptions and destructors.                                          *)
(*                                                                                                           *)
(* A state st has: h, the heap (index -> object), fr, the stack of frames (blocks, eval blocks, calls) with  *)
(* their Node variables n, Node[] variables r and, of a call, its caller's copies x of the arguments, g, the class variables G, K (Node) and H (Node[]), and lg, *)
(* the destructors run by the last operation.  An object has a class k ("P", "T" whose destructor throws,    *)
(* "E" whose destructor uses eval, "U" whose destructor sets the class variable K to undef, "A" an array of  *)
(* two Nodes, "C" an anonymous method that captured a Node), a reference count rc and slots; a slot holds an *)
(* object or 0 and is strong or weak.  Node slots: 1 a, 2 b (Node), 3 l (Node[]), 4 o (any object).          *)
(* The same operations are explored exhaustively to a depth (Next) and at random (NextSim).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObj, MaxFrames, Kinds, Classes, Fields, MaxLen, BaseN, Globs, EveryStep
VARIABLES st, hist, uid
vars == <<st, hist, uid>>

Free == [k |-> "-", rc |-> 0, s |-> <<>>, u |-> 0]
S0 == [r |-> 0, w |-> FALSE]
NodeCls == {"P", "T", "E", "U"}
Init0 == [h |-> [i \in 1..MaxObj |-> Free], fr |-> <<[t |-> "base", n |-> [i \in 1..BaseN |-> 0], r |-> <<0>>, x |-> <<>>]>>,
          g |-> [G |-> 0, K |-> 0, H |-> 0], lg |-> <<>>]

\* ------------------------------------------------------------------ references and destruction
Inc(s, o) == IF o = 0 THEN s ELSE [s EXCEPT !.h[o].rc = @ + 1]
RECURSIVE Dec(_,_), DropSlots(_,_,_)
\* ids of the objects an object refers to strongly (what its destructor sees)
Strong(s, o) == [i \in 1..2 |-> LET x == s.h[o].s[i] IN IF x.w \/ x.r = 0 THEN 0 ELSE s.h[x.r].u]
ClearWeak(s, o) == [s EXCEPT !.h = [j \in 1..MaxObj |-> [s.h[j] EXCEPT !.s = [i \in DOMAIN s.h[j].s |->
                        IF s.h[j].s[i].w /\ s.h[j].s[i].r = o THEN S0 ELSE s.h[j].s[i]]]]]
Dec(s, o) ==
  IF o = 0 THEN s
  ELSE IF s.h[o].rc > 1 THEN [s EXCEPT !.h[o].rc = @ - 1]
  ELSE LET s1 == IF s.h[o].k \in NodeCls THEN [s EXCEPT !.lg = Append(@, <<s.h[o].u, Strong(s, o)>>)] ELSE s
           s2 == IF s.h[o].k = "U" /\ s1.g.K # 0 THEN Dec([s1 EXCEPT !.g.K = 0], s1.g.K) ELSE s1
           s3 == DropSlots(s2, o, 1)
       IN [ClearWeak(s3, o) EXCEPT !.h[o] = Free]
DropSlots(s, o, i) == IF i > Len(s.h[o].s) THEN s
                      ELSE LET x == s.h[o].s[i] IN
                           DropSlots(IF x.w THEN [s EXCEPT !.h[o].s[i] = S0] ELSE Dec([s EXCEPT !.h[o].s[i] = S0], x.r), o, i + 1)

\* ------------------------------------------------------------------ places
Boundary(s) == CHOOSE j \in 1..Len(s.fr) : s.fr[j].t \in {"base","call"} /\ \A k \in (j+1)..Len(s.fr) : s.fr[k].t \notin {"base","call"}
NLoc(s, lo, hi) == {<<"n", j, i>> : j \in lo..hi, i \in 1..3} \cap {p \in ({"n"} \X (lo..hi) \X (1..3)) : p[3] <= Len(s.fr[p[2]].n)}
NPl(s) == NLoc(s, Boundary(s), Len(s.fr)) \cup {<<x>> : x \in Globs \cap {"G","K"}}
RPl(s) == {<<"r", j, 1>> : j \in {k \in Boundary(s)..Len(s.fr) : Len(s.fr[k].r) > 0}} \cup {<<x>> : x \in Globs \cap {"H"}}
Get(s, p) == CASE p[1] = "n" -> s.fr[p[2]].n[p[3]] [] p[1] = "r" -> s.fr[p[2]].r[p[3]] [] p[1] = "u" -> 0 [] OTHER -> s.g[p[1]]
Put(s, p, o) == CASE p[1] = "n" -> [s EXCEPT !.fr[p[2]].n[p[3]] = o] [] p[1] = "r" -> [s EXCEPT !.fr[p[2]].r[p[3]] = o]
                  [] OTHER -> [s EXCEPT !.g[p[1]] = o]
Undef == <<"u">>
Assign(s, p, o) == LET old == Get(s, p) IN Dec(Put(Inc(s, o), p, o), old)
\* a field or element: the weak flag ends with the assignment
AssignSlot(s, o, i, v) == LET x == s.h[o].s[i] IN
                          Dec([Inc(s, v) EXCEPT !.h[o].s[i] = [r |-> v, w |-> FALSE]], IF x.w THEN 0 ELSE x.r)
Weaken(s, o, i) == LET x == s.h[o].s[i] IN
                   IF x.r = 0 \/ x.w THEN s
                   ELSE IF s.h[x.r].rc = 1 THEN Dec([s EXCEPT !.h[o].s[i] = S0], x.r)
                   ELSE [s EXCEPT !.h[o].s[i].w = TRUE, !.h[x.r].rc = @ - 1]
Unweaken(s, o, i) == LET x == s.h[o].s[i] IN
                     IF x.r = 0 \/ ~x.w THEN s ELSE [s EXCEPT !.h[o].s[i].w = FALSE, !.h[x.r].rc = @ + 1]
NextFree(s) == CHOOSE i \in 1..MaxObj : s.h[i].k = "-" /\ \A j \in 1..(i-1) : s.h[j].k # "-"
HasFree(s) == \E i \in 1..MaxObj : s.h[i].k = "-"
Alloc(s, k, n, u) == LET i == NextFree(s) IN [s EXCEPT !.h[i] = [k |-> k, rc |-> 1, s |-> [j \in 1..n |-> S0], u |-> u]]

\* ------------------------------------------------------------------ frames
Locals(f) == f.n \o f.r \o f.x
RECURSIVE DropAll(_,_), PopTo(_,_)
DropAll(s, l) == IF l = <<>> THEN s ELSE DropAll(Dec(s, l[1]), Tail(l))
PopFrame(s) == LET f == s.fr[Len(s.fr)] IN DropAll([s EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)], Locals(f))
PopTo(s, n) == IF Len(s.fr) <= n THEN s ELSE PopTo(PopFrame(s), n)
EvalFrames(s) == {j \in 1..Len(s.fr) : s.fr[j].t = "eval"}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* ------------------------------------------------------------------ operations
Def(s, p) == Get(s, p) # 0
Slot(s, p, f) == s.h[Get(s, p)].s[f].r
Ops(k, s) ==
  LET N == NPl(s)  NU == N \cup {Undef}  R == RPl(s)  F == Fields
      D == {p \in N : Def(s, p)}  DR == {q \in R : Def(s, q)} IN
  CASE k = "new" -> IF HasFree(s) THEN {<<"new", p, c>> : p \in N, c \in Classes} ELSE {}
    [] k = "newf" -> IF HasFree(s) THEN {<<"newf", p, f, c>> : p \in D, f \in F \cap {1,2}, c \in Classes} ELSE {}
    [] k = "arr" -> IF HasFree(s) THEN {<<"arr", q>> : q \in R} ELSE {}
    [] k = "asg" -> {<<"asg", p, q>> : p \in N, q \in NU}
    [] k = "asgr" -> {<<"asgr", p, q>> : p \in R, q \in R \cup {Undef}}
    [] k = "getf" -> {<<"getf", p, q, f>> : p \in N, q \in D, f \in F \cap {1,2}}
    [] k = "setf" -> {<<"setf", p, f, q>> : p \in D, f \in F \cap {1,2}, q \in NU}
    [] k = "setff" -> {<<"setff", x[1], x[2], g, q>> : x \in {y \in D \X (F \cap {1,2}) : Slot(s, y[1], y[2]) # 0}, g \in F \cap {1,2}, q \in NU}
    [] k = "weak" -> {<<"weak", p, f>> : p \in D, f \in F \cap {1,2,4}}
    [] k = "unweak" -> {<<"unweak", p, f>> : p \in D, f \in F \cap {1,2,4}}
    [] k = "weakff" -> {<<"weakff", x[1], x[2], g>> : x \in {y \in D \X (F \cap {1,2}) : Slot(s, y[1], y[2]) # 0}, g \in F \cap {1,2}}
    [] k = "sete" -> {<<"sete", q, i, p>> : q \in DR, i \in {1,2}, p \in NU}
    [] k = "gete" -> {<<"gete", p, q, i>> : p \in N, q \in DR, i \in {1,2}}
    [] k = "setl" -> IF 3 \in F THEN {<<"setl", p, q>> : p \in D, q \in R \cup {Undef}} ELSE {}
    [] k = "getl" -> IF 3 \in F THEN {<<"getl", q, p>> : q \in R, p \in D} ELSE {}
    [] k = "weakl" -> IF 3 \in F THEN {<<"weak", p, 3>> : p \in D} ELSE {}
    [] k = "seto" -> IF 4 \in F THEN {<<"seto", p, q>> : p \in D, q \in NU \cup R} ELSE {}
    [] k = "geto" -> IF 4 \in F THEN {<<"geto", p, q>> : p \in N, q \in {x \in D : Slot(s, x, 4) = 0 \/ s.h[Slot(s, x, 4)].k \in NodeCls}} ELSE {}
    [] k = "clo" -> IF 4 \in F /\ HasFree(s) THEN {<<"clo", p, q>> : p \in D, q \in NU} ELSE {}
    [] k = "bad" -> {<<"bad", p, f, q>> : p \in N \ D, f \in F \cap {1,2}, q \in NU}       \* eval { undef->{f} = q }
    [] k = "tmp" -> IF HasFree(s) THEN {<<"tmp", p, f>> : p \in N, f \in F \cap {1,2}} ELSE {}  \* p = (new object with f = p)->{f}
    [] k = "enter" -> IF Len(s.fr) < MaxFrames THEN {<<"enter", t>> : t \in {"blk", "eval", "loop"}} ELSE {}
    [] k = "exit" -> IF Len(s.fr) > Boundary(s) THEN {<<"exit">>} ELSE {}
    [] k = "call" -> IF Len(s.fr) < MaxFrames THEN {<<"call", p, q>> : p \in NU, q \in NU} ELSE {}
    [] k = "ret" -> IF Boundary(s) = 1 THEN {}
                    ELSE LET c == [s EXCEPT !.fr = SubSeq(@, 1, Boundary(s) - 1)] IN
                         {<<"ret", p, d>> : p \in NU, d \in NPl(c) \cup {Undef}}
    [] k = "throw" -> IF EvalFrames(s) # {} THEN {<<"throw">>} ELSE {}

Apply(op, s0) ==
  LET s == [s0 EXCEPT !.lg = <<>>]  k == op[1] IN
  CASE k = "new" -> LET i == NextFree(s)  s1 == Alloc(s, op[3], 4, uid) IN Dec(Put(s1, op[2], i), Get(s, op[2]))
    [] k = "newf" -> LET i == NextFree(s)  s1 == Alloc(s, op[4], 4, uid) IN Dec(AssignSlot(s1, Get(s, op[2]), op[3], i), i)
    [] k = "arr" -> LET i == NextFree(s)  s1 == Alloc(s, "A", 2, 0) IN Dec(Put(s1, op[2], i), Get(s, op[2]))
    [] k \in {"asg", "asgr"} -> Assign(s, op[2], Get(s, op[3]))
    [] k = "getf" -> Assign(s, op[2], Slot(s, op[3], op[4]))
    [] k = "setf" -> AssignSlot(s, Get(s, op[2]), op[3], Get(s, op[4]))
    [] k = "setff" -> \* the object in the first field is held while the statement runs
                      LET o == Slot(s, op[2], op[3]) IN Dec(AssignSlot(Inc(s, o), o, op[4], Get(s, op[5])), o)
    [] k = "weak" -> Weaken(s, Get(s, op[2]), op[3])
    [] k = "unweak" -> Unweaken(s, Get(s, op[2]), op[3])
    [] k = "weakff" -> LET o == Slot(s, op[2], op[3]) IN Dec(Weaken(Inc(s, o), o, op[4]), o)
    [] k = "sete" -> AssignSlot(s, Get(s, op[2]), op[3], Get(s, op[4]))
    [] k = "gete" -> Assign(s, op[2], s.h[Get(s, op[3])].s[op[4]].r)
    [] k = "setl" -> AssignSlot(s, Get(s, op[2]), 3, Get(s, op[3]))
    [] k = "getl" -> Assign(s, op[2], Slot(s, op[3], 3))
    [] k = "seto" -> AssignSlot(s, Get(s, op[2]), 4, Get(s, op[3]))
    [] k = "geto" -> Assign(s, op[2], Slot(s, op[3], 4))
    [] k = "clo" -> LET i == NextFree(s)  s1 == Alloc(s, "C", 1, 0)  s2 == AssignSlot(s1, i, 1, Get(s, op[3])) IN
                    Dec(AssignSlot(s2, Get(s, op[2]), 4, i), i)
    [] k = "bad" -> s
    [] k = "tmp" -> LET i == NextFree(s)  s1 == Alloc(s, "P", 4, uid)  s2 == AssignSlot(s1, i, op[3], Get(s, op[2])) IN
                    \* my $t = new ...; $t->{f} = p; p = undef; p = $t->{f}; end of block
                    LET s3 == Assign(s2, op[2], 0) IN Dec(Assign(s3, op[2], s3.h[i].s[op[3]].r), i)
    [] k = "enter" -> [s EXCEPT !.fr = Append(@, [t |-> op[2], n |-> IF op[2] = "eval" THEN <<>> ELSE <<0>>, r |-> <<>>, x |-> <<>>])]
    [] k = "exit" -> PopFrame(s)
    [] k = "call" -> LET a == Get(s, op[2])  b == Get(s, op[3]) IN
                     Inc(Inc(Inc(Inc([s EXCEPT !.fr = Append(@, [t |-> "call", n |-> <<a, b, 0>>, r |-> <<0>>, x |-> <<a, b>>])], a), b), a), b)
    [] k = "ret" -> LET v == Get(s, op[2])  b == Boundary(s)  x == s.fr[b].x
                        s1 == PopTo([Inc(s, v) EXCEPT !.fr[b].x = <<>>], b - 1) IN
                    DropAll(IF op[3] = Undef THEN s1 ELSE Assign(s1, op[3], v), <<v>> \o x)
    [] k = "throw" -> PopTo(s, Max(EvalFrames(s)) - 1)

\* ------------------------------------------------------------------ observation
B2(x) == IF x = 0 THEN 0 ELSE 1
U(s, o) == IF o = 0 THEN 0 ELSE s.h[o].u
ShowN(s, o) == IF o = 0 THEN <<0>>
               ELSE <<s.h[o].u>> \o [i \in 1..4 |-> LET x == s.h[o].s[i]
                       v == IF x.r = 0 THEN 0 ELSE IF s.h[x.r].k \in NodeCls THEN U(s, x.r) ELSE -1 IN <<v, IF x.w THEN 1 ELSE 0>>]
ShowR(s, o) == IF o = 0 THEN <<>> ELSE <<U(s, s.h[o].s[1].r), U(s, s.h[o].s[2].r)>>
SeqN(s) == [j \in Boundary(s)..Len(s.fr) |-> [i \in 1..Len(s.fr[j].n) |-> ShowN(s, s.fr[j].n[i])]]
Live(s) == {i \in 1..MaxObj : s.h[i].k # "-"}
WeakSlots(s) == {x \in Live(s) \X (1..4) : x[2] <= Len(s.h[x[1]].s) /\ s.h[x[1]].s[x[2]].w}
Blocks(s) == Cardinality(Live(s)) + Cardinality(WeakSlots(s))
Obs(s) == [lo |-> Boundary(s), n |-> SeqN(s), r |-> [j \in Boundary(s)..Len(s.fr) |-> IF Len(s.fr[j].r) = 0 THEN <<>> ELSE <<ShowR(s, s.fr[j].r[1]), B2(s.fr[j].r[1])>>],
           G |-> ShowN(s, s.g.G), K |-> ShowN(s, s.g.K), H |-> ShowR(s, s.g.H), hd |-> B2(s.g.H), m |-> Blocks(s), d |-> s.lg]
\* leaving main and clearing the class variables
Final(s) == LET s1 == PopTo([s EXCEPT !.lg = <<>>], 0)
                s2 == Dec([s1 EXCEPT !.g.G = 0], s1.g.G)
                s3 == Dec([s2 EXCEPT !.g.K = 0], s2.g.K)
                s4 == Dec([s3 EXCEPT !.g.H = 0], s3.g.H) IN s4
FinalObs(s) == LET f == Final(s) IN [d |-> f.lg, m |-> Blocks(f)]

Init == st = Init0 /\ hist = <<>> /\ uid = 1
Do(op) == LET s == Apply(op, st) IN
          /\ st' = s
          /\ hist' = Append(hist, IF EveryStep THEN <<op, Obs(s)>> ELSE <<op>>)
          /\ uid' = uid + 1
Next == /\ Len(hist) < MaxLen
        /\ \E k \in Kinds : \E op \in Ops(k, st) :
             /\ Do(op)
             /\ PrintT(ToJson([tr |-> hist', ob |-> Obs(st'), fin |-> FinalObs(st')]))
Spec == Init /\ [][Next]_vars
\* random walk: an operation kind first, then an operation
NextSim == /\ Len(hist) < MaxLen
           /\ LET en == {k \in Kinds : Ops(k, st) # {}}
                  k == RandomElement(en)
                  op == RandomElement(Ops(k, st))
              IN Do(op)
           /\ (Len(hist') = MaxLen => PrintT(ToJson([tr |-> hist', ob |-> Obs(st'), fin |-> FinalObs(st')])))
SpecSim == Init /\ [][NextSim]_vars
View == st

\* ------------------------------------------------------------------ properties
\* the reference count is the number of strong references
Count(o) == Cardinality({x \in Live(st) \X (1..4) : x[2] <= Len(st.h[x[1]].s) /\ st.h[x[1]].s[x[2]].r = o /\ ~st.h[x[1]].s[x[2]].w})
            + Cardinality({x \in (1..Len(st.fr)) \X (1..3) : x[2] <= Len(st.fr[x[1]].n) /\ st.fr[x[1]].n[x[2]] = o})
            + Cardinality({x \in (1..Len(st.fr)) \X (1..2) : x[2] <= Len(st.fr[x[1]].x) /\ st.fr[x[1]].x[x[2]] = o})
            + Cardinality({j \in 1..Len(st.fr) : Len(st.fr[j].r) > 0 /\ st.fr[j].r[1] = o})
            + Cardinality({x \in {"G","K","H"} : st.g[x] = o})
CountExact == \A o \in Live(st) : st.h[o].rc = Count(o)
NoDangling == /\ \A o \in Live(st) : \A i \in DOMAIN st.h[o].s : st.h[o].s[i].r # 0 => st.h[st.h[o].s[i].r].k # "-"
              /\ \A j \in 1..Len(st.fr) : \A i \in 1..Len(st.fr[j].n) : st.fr[j].n[i] # 0 => st.h[st.fr[j].n[i]].k \in NodeCls
NotLost == \A o \in Live(st) : st.h[o].rc > 0
\* whatever is left after the program is unreachable garbage: only members of strong cycles, or held by them
LeftOver == LET f == Final(st) IN \A o \in Live(f) : f.h[o].rc > 0
\* destroyed objects are gone: each destructor ran for an object that is not there any more
Dead == \A j \in 1..Len(st.lg) : \A o \in Live(st) : st.h[o].k \in NodeCls => st.h[o].u # st.lg[j][1]
=============================================================================
