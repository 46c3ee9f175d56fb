------------------------------ MODULE Handles ------------------------------
(* C19: objects seen from Perl.  A Perl variable p[i] (and the elements of a Perl array q) refers to a handle, strongly or weakly   *)
(* (Scalar::Util::weaken); a handle holds one reference to an SPVM object; copying a Perl variable copies the reference to the      *)
(* handle, while everything SPVM returns is a new handle.  An object is a node "N" with slots 1 a (strong), 2 w (weak), 3 l (array) *)
(* and a destructor (behaviour d: 0 plain, 1 throws, 2 sets the class variable G to undef, 3 evals), an array "A" of 2 nodes, an    *)
(* array "O" of a key string and a node (options), or "C", an anonymous method that captured a node.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS MaxObj, MaxH, NP, Kinds, MaxLen, Destr, EveryStep
VARIABLES st, hist, uid
vars == <<st, hist, uid>>

Free == [k |-> "-", rc |-> 0, s |-> <<>>, u |-> 0, d |-> 0]
S0 == [r |-> 0, w |-> FALSE]
R(o) == [r |-> o, w |-> FALSE]
P0 == [hd |-> 0, w |-> FALSE]
Init0 == [h |-> [i \in 1..MaxObj |-> Free], hh |-> [i \in 1..MaxH |-> 0], p |-> [i \in 1..NP |-> P0], q |-> <<0, 0>>, g |-> 0, lg |-> <<>>]

\* ------------------------------------------------------------------ objects
Inc(s, o) == IF o = 0 THEN s ELSE [s EXCEPT !.h[o].rc = @ + 1]
RECURSIVE Dec(_,_), DropSlots(_,_,_)
ClearWeak(s, o) == [s EXCEPT !.h = [j \in 1..MaxObj |-> [s.h[j] EXCEPT !.s = [i \in DOMAIN s.h[j].s |->
                        IF s.h[j].s[i].w /\ s.h[j].s[i].r = o THEN S0 ELSE s.h[j].s[i]]]]]
Dec(s, o) ==
  IF o = 0 THEN s
  ELSE IF s.h[o].rc > 1 THEN [s EXCEPT !.h[o].rc = @ - 1]
  ELSE LET s1 == IF s.h[o].k = "N" THEN [s EXCEPT !.lg = Append(@, s.h[o].u)] ELSE s
           s2 == IF s.h[o].d = 2 /\ s1.g # 0 THEN Dec([s1 EXCEPT !.g = 0], s1.g) ELSE s1
           s3 == DropSlots(s2, o, 1)
       IN [ClearWeak(s3, o) EXCEPT !.h[o] = Free]
DropSlots(s, o, i) == IF i > Len(s.h[o].s) THEN s
                      ELSE LET x == s.h[o].s[i] IN
                           DropSlots(IF x.w THEN [s EXCEPT !.h[o].s[i] = S0] ELSE Dec([s EXCEPT !.h[o].s[i] = S0], x.r), o, i + 1)
SetSlot(s, o, i, v, w) == LET x == s.h[o].s[i]
                              s1 == [(IF w THEN s ELSE Inc(s, v)) EXCEPT !.h[o].s[i] = [r |-> v, w |-> w /\ v # 0]]
                          IN IF x.w THEN s1 ELSE Dec(s1, x.r)
SetG(s, v) == Dec([Inc(s, v) EXCEPT !.g = v], s.g)
NextFree(s) == CHOOSE i \in 1..MaxObj : s.h[i].k = "-" /\ \A j \in 1..(i-1) : s.h[j].k # "-"
Room(s, k) == Cardinality({i \in 1..MaxObj : s.h[i].k = "-"}) >= k
\* a new object with one reference, that of whoever asked for it; sl: the objects its slots refer to
RECURSIVE IncAll(_,_,_)
IncAll(s, sl, i) == IF i > Len(sl) THEN s ELSE IncAll(Inc(s, sl[i].r), sl, i + 1)
Alloc(s, k, sl, u, d) == LET o == NextFree(s) IN <<[IncAll(s, sl, 1) EXCEPT !.h[o] = [k |-> k, rc |-> 1, s |-> sl, u |-> u, d |-> d]], o>>
NewN(s, u, d) == Alloc(s, "N", <<S0, S0, S0>>, u, d)

\* ------------------------------------------------------------------ handles
HRoom(s) == \E i \in 1..MaxH : s.hh[i] = 0
HFree(s) == CHOOSE i \in 1..MaxH : s.hh[i] = 0 /\ \A j \in 1..(i-1) : s.hh[j] # 0
Held(s, x) == (\E i \in 1..NP : s.p[i].hd = x /\ ~s.p[i].w) \/ (\E i \in 1..2 : s.q[i] = x)
DropH(s, x) == IF x = 0 \/ Held(s, x) THEN s
               ELSE Dec([s EXCEPT !.p = [i \in 1..NP |-> IF s.p[i].hd = x THEN P0 ELSE s.p[i]], !.hh[x] = 0], s.hh[x])
ObjP(s, i) == IF s.p[i].hd = 0 THEN 0 ELSE s.hh[s.p[i].hd]
ObjQ(s, i) == IF s.q[i] = 0 THEN 0 ELSE s.hh[s.q[i]]
\* p[i] = an existing handle (0: undef)
SetP(s, i, x) == DropH([s EXCEPT !.p[i] = [hd |-> x, w |-> FALSE]], IF s.p[i].w THEN 0 ELSE s.p[i].hd)
SetQ(s, i, x) == DropH([s EXCEPT !.q[i] = x], s.q[i])
\* p[i] = a new handle to the object o returned by SPVM (0: undef)
Ret(s, i, o) == IF o = 0 THEN SetP(s, i, 0) ELSE LET x == HFree(s) IN SetP([Inc(s, o) EXCEPT !.hh[x] = o], i, x)
\* a new handle that takes over the reference of a just created object
RetNew(t, i) == LET x == HFree(t[1]) IN SetP([t[1] EXCEPT !.hh[x] = t[2]], i, x)

\* ------------------------------------------------------------------ operations
V == 1..NP
Is(s, i, k) == ObjP(s, i) # 0 /\ s.h[ObjP(s, i)].k = k
NV(s) == {i \in V : Is(s, i, "N")}                       \* variables with a node
UV(s) == {i \in V : ObjP(s, i) = 0 \/ Is(s, i, "N")}     \* a node or undef
AV(s) == {i \in V : Is(s, i, "A")}
OV(s) == {i \in V : Is(s, i, "O")}
CV(s) == {i \in V : Is(s, i, "C")}
Slot(s, i, f) == s.h[ObjP(s, i)].s[f].r
T(S) == S
Ops(k, s) ==
  LET r1 == Room(s, 1) r2 == Room(s, 2) h == HRoom(s) IN
  CASE k = "new"  -> IF r1 /\ h THEN {<<k, i, d>> : i \in V, d \in Destr} ELSE {}
    [] k = "temp" -> IF r1 THEN {<<k, d>> : d \in Destr} ELSE {}                      \* Hn->new(u); in void context
    [] k = "newa" -> IF r2 /\ h THEN {<<k, i>> : i \in V} ELSE {}                     \* p[i] = Hn->new_a(Hn->new(u), u'): object with a temporary argument
    [] k = "copy" -> {<<k, i, j>> : i \in V, j \in V} \ {<<k, i, i>> : i \in V}
    [] k = "drop" -> {<<k, i>> : i \in {x \in V : s.p[x].hd # 0}}
    [] k = "weakp" -> {<<k, i>> : i \in {x \in V : s.p[x].hd # 0 /\ ~s.p[x].w}}
    [] k = "push" -> {<<k, i, j>> : i \in 1..2, j \in V}
    [] k = "shift" -> {<<k, i, j>> : i \in V, j \in 1..2}
    [] k = "set"  -> {<<k, i, f, j>> : i \in NV(s), f \in {1, 2}, j \in UV(s)}
    [] k = "setnew" -> IF r1 THEN {<<k, i, f>> : i \in NV(s), f \in {1, 2}} ELSE {}
    [] k = "get"  -> IF h THEN {<<k, i, f, j>> : i \in NV(s), f \in {1, 2, 3}, j \in V} ELSE {}
    [] k = "me"   -> IF h THEN {<<k, i, j>> : i \in NV(s), j \in V} ELSE {}
    [] k = "chain" -> IF h THEN {<<k, i, j>> : i \in {x \in NV(s) : Slot(s, x, 1) # 0}, j \in V} ELSE {}  \* p[j] = p[i]->a->w
    [] k = "setg" -> {<<k, i>> : i \in UV(s)}
    [] k = "getg" -> IF h THEN {<<k, i>> : i \in V} ELSE {}
    [] k = "swapg" -> IF h THEN {<<k, i, j>> : i \in UV(s), j \in V} ELSE {}          \* p[j] = Hn->swapg(p[i]), the former value
    [] k = "setl" -> {<<k, i, j>> : i \in NV(s), j \in AV(s)}
    [] k = "setlp" -> IF r1 THEN {<<k, i, a, b>> : i \in NV(s), a \in UV(s), b \in UV(s)} ELSE {}   \* p[i]->set_l([p[a], p[b]]): a Perl list
    [] k = "arr"  -> IF r1 /\ h THEN {<<k, i, a, b>> : i \in V, a \in UV(s), b \in UV(s)} ELSE {}    \* new_object_array
    [] k = "arrv" -> IF r1 /\ h THEN {<<k, i, a, b>> : i \in V, a \in UV(s), b \in UV(s)} ELSE {}    \* an array made by SPVM
    [] k = "opt"  -> IF r1 /\ h THEN {<<k, i, a>> : i \in V, a \in UV(s)} ELSE {}
    [] k = "optget" -> IF h THEN {<<k, i, a>> : i \in V, a \in OV(s)} ELSE {}
    [] k = "aget" -> IF h THEN {<<k, i, x, a>> : i \in V, x \in 1..2, a \in AV(s)} ELSE {}
    [] k = "aset" -> {<<k, a, x, i>> : a \in AV(s), x \in 1..2, i \in UV(s)}
    [] k = "elems" -> IF h THEN {<<k, i, a>> : i \in V, a \in AV(s)} ELSE {}          \* p[i] = p[a]->to_elems->[1]
    [] k = "wide" -> IF h THEN {<<k, i, a, b>> : i \in V, a \in UV(s), b \in UV(s)} ELSE {}   \* p[i] = the last element of a list [a, b, a, b, b] turned into an array and back, with arrays of other types beside it
    [] k = "first" -> IF h /\ r1 THEN {<<k, i, a, b>> : i \in V, a \in UV(s), b \in UV(s)} ELSE {}  \* p[i] = Hn->first([p[a], p[b]])
    [] k = "clo"  -> IF r1 /\ h THEN {<<k, i, a>> : i \in V, a \in UV(s)} ELSE {}
    [] k = "run"  -> IF h THEN {<<k, i, a>> : i \in V, a \in CV(s)} ELSE {}
    [] k = "fail" -> {<<k, i, j, x>> : i \in NV(s), j \in UV(s), x \in 1..4}          \* 1 throws, 2 stores then throws, 3 a refused argument, 4 throws an error class
    [] k = "failnew" -> IF r1 THEN {<<k, i, x>> : i \in NV(s), x \in 1..4} ELSE {}
    [] k = "scope" -> IF r2 THEN {<<k, i, j>> : i \in UV(s), j \in V} ELSE {}          \* handles in Perl lexicals, left by an exception
    [] k = "dieh" -> {<<k, i, j>> : i \in V, j \in V}                                  \* p[j] caught from die p[i]
Apply(op, s0) ==
  LET s == [s0 EXCEPT !.lg = <<>>] k == op[1]
      a1 == IF Len(op) > 1 THEN op[2] ELSE 0
      O(i) == ObjP(s, i)
  IN
  CASE k = "new"  -> RetNew(NewN(s, uid, op[3]), a1)
    [] k = "temp" -> LET t == NewN(s, uid, a1) IN Dec(t[1], t[2])
    [] k = "newa" -> LET t == NewN(s, uid, 0) t2 == Alloc(t[1], "N", <<R(t[2]), S0, S0>>, uid + 1, 0) IN
                     LET r == RetNew(t2, a1) IN Dec(r, t[2])
    [] k = "copy" \/ k = "dieh" -> IF k = "copy" THEN SetP(s, a1, s.p[op[3]].hd)
                     ELSE IF s.p[a1].hd = 0 THEN s ELSE SetP(s, op[3], s.p[a1].hd)
    [] k = "drop" -> SetP(s, a1, 0)
    [] k = "weakp" -> DropH([s EXCEPT !.p[a1].w = TRUE], s.p[a1].hd)
    [] k = "push" -> SetQ(s, a1, s.p[op[3]].hd)
    [] k = "shift" -> LET x == s.q[op[3]] IN SetQ(SetP(s, a1, x), op[3], 0)
    [] k = "set"  -> SetSlot(s, O(a1), op[3], O(op[4]), op[3] = 2)
    [] k = "setnew" -> LET t == NewN(s, uid, 0) IN Dec(SetSlot(t[1], O(a1), op[3], t[2], op[3] = 2), t[2])
    [] k = "get"  -> Ret(s, op[4], Slot(s, a1, op[3]))
    [] k = "me"   -> Ret(s, op[3], O(a1))
    [] k = "chain" -> Ret(s, op[3], s.h[Slot(s, a1, 1)].s[2].r)
    [] k = "setg" -> SetG(s, O(a1))
    [] k = "getg" -> Ret(s, a1, s.g)
    [] k = "swapg" -> LET old == s.g s1 == Inc(s, old) s2 == SetG(s1, O(a1)) s3 == Ret(s2, op[3], old) IN IF old = 0 THEN s3 ELSE Dec(s3, old)
    [] k = "setl" -> SetSlot(s, O(a1), 3, O(op[3]), FALSE)
    [] k = "setlp" -> LET t == Alloc(s, "A", <<R(O(op[3])), R(O(op[4]))>>, 0, 0) IN Dec(SetSlot(t[1], O(a1), 3, t[2], FALSE), t[2])
    [] k \in {"arr", "arrv"} -> RetNew(Alloc(s, "A", <<R(O(op[3])), R(O(op[4]))>>, 0, 0), a1)
    [] k = "opt"  -> RetNew(Alloc(s, "O", <<R(O(op[3]))>>, 0, 0), a1)
    [] k = "optget" -> Ret(s, a1, Slot(s, op[3], 1))
    [] k = "aget" -> Ret(s, a1, Slot(s, op[4], op[3]))
    [] k = "aset" -> SetSlot(s, O(a1), op[3], O(op[4]), FALSE)
    [] k = "elems" -> Ret(s, a1, Slot(s, op[3], 2))
    [] k = "wide" -> Ret(s, a1, O(op[4]))
    [] k = "first" -> Ret(s, a1, O(op[3]))
    [] k = "clo"  -> RetNew(Alloc(s, "C", <<R(O(op[3]))>>, 0, 0), a1)
    [] k = "run"  -> Ret(s, a1, Slot(s, op[3], 1))
    [] k = "fail" -> IF op[4] = 2 THEN SetSlot(s, O(a1), 1, O(op[3]), FALSE) ELSE s
    [] k = "failnew" -> LET t == NewN(s, uid, 0) IN Dec(IF op[3] = 2 THEN SetSlot(t[1], O(a1), 1, t[2], FALSE) ELSE t[1], t[2])
    \* eval { my $x = p[i]; my $y = Hn->new(u); my $z = Hn->new(u + 1); $y->set_a($z); $z->set_w($y); $y->set_l([$x, $z]) ; p[j] = $z; die }
    [] k = "scope" -> LET t == NewN(s, uid, 0) t2 == NewN(t[1], uid + 1, 0)
                          s1 == SetSlot(SetSlot(t2[1], t[2], 1, t2[2], FALSE), t2[2], 2, t[2], TRUE)
                          s2 == SetP(s1, op[3], 0)
                      IN Dec(Dec(s2, t[2]), t2[2])

\* ------------------------------------------------------------------ what can be seen
Show(s, o) == IF o = 0 THEN "u" ELSE IF s.h[o].k = "N" THEN ToString(s.h[o].u) ELSE s.h[o].k
Live(s) == {i \in 1..MaxObj : s.h[i].k # "-"}
WeakSlots(s) == {x \in Live(s) \X (1..3) : x[2] <= Len(s.h[x[1]].s) /\ s.h[x[1]].s[x[2]].w}
Blocks(s) == Cardinality(Live(s)) + Cardinality(WeakSlots(s)) + Cardinality({i \in Live(s) : s.h[i].k = "O"})
Obs(s) == [p |-> [i \in V |-> Show(s, ObjP(s, i))], q |-> [i \in 1..2 |-> Show(s, ObjQ(s, i))], m |-> Blocks(s), d |-> s.lg]
RECURSIVE Clear(_,_)
Clear(s, i) == IF i > NP THEN s ELSE Clear(SetP(s, i, 0), i + 1)
Final(s) == LET s1 == SetQ(SetQ(Clear([s EXCEPT !.lg = <<>>], 1), 1, 0), 2, 0) IN SetG(s1, 0)
FinalObs(s) == LET f == Final(s) IN [d |-> f.lg, m |-> Blocks(f)]

Init == st = Init0 /\ hist = <<>> /\ uid = 1
Do(op) == LET s == Apply(op, st) IN /\ st' = s /\ hist' = Append(hist, <<op, uid, IF EveryStep THEN <<Obs(s)>> ELSE <<>>>>) /\ uid' = uid + 2
Next == /\ Len(hist) < MaxLen
        /\ \E k \in Kinds : \E op \in Ops(k, st) : /\ Do(op) /\ PrintT(ToJson([tr |-> hist', ob |-> Obs(st'), fin |-> FinalObs(st')]))
Spec == Init /\ [][Next]_vars
NextSim == /\ Len(hist) < MaxLen
           /\ LET en == {k \in (IF Cardinality(NV(st)) < 2 THEN {"new", "newa", "getg", "shift"} ELSE RandomSubset(4, Kinds)) \cup {"copy"} : Ops(k, st) # {}}
                  k == IF Cardinality(NV(st)) < 2 /\ "new" \in en THEN RandomElement({"new"} \cup en) ELSE RandomElement(en)
                  op == RandomElement(Ops(k, st))
              IN Do(op)
           /\ (Len(hist') = MaxLen => PrintT(ToJson([tr |-> hist', ob |-> Obs(st'), fin |-> FinalObs(st')])))
SpecSim == Init /\ [][NextSim]_vars
View == st

\* ------------------------------------------------------------------ properties
Count(o) == Cardinality({x \in Live(st) \X (1..3) : x[2] <= Len(st.h[x[1]].s) /\ st.h[x[1]].s[x[2]].r = o /\ ~st.h[x[1]].s[x[2]].w})
            + Cardinality({x \in 1..MaxH : st.hh[x] = o}) + (IF st.g = o THEN 1 ELSE 0)
CountExact == \A o \in Live(st) : st.h[o].rc = Count(o) /\ st.h[o].rc > 0
HandlesHeld == \A x \in 1..MaxH : st.hh[x] # 0 => Held(st, x) /\ st.h[st.hh[x]].k # "-"
NoDangling == /\ \A o \in Live(st) : \A i \in DOMAIN st.h[o].s : st.h[o].s[i].r # 0 => st.h[st.h[o].s[i].r].k # "-"
              /\ \A i \in 1..NP : st.p[i].hd # 0 => st.hh[st.p[i].hd] # 0
              /\ st.g # 0 => st.h[st.g].k # "-"
\* whatever Perl can reach is alive, and what is alive is reachable from Perl or G, or is in or behind a strong cycle
LeftOver == LET f == Final(st) IN \A o \in Live(f) : f.h[o].rc > 0
=============================================================================
