------------------------------- MODULE Threads -------------------------------
(* C22: references to shared objects used by several threads.                                                                       *)
(* Part 1, the meaning: every assignment, weaken, unweaken and isweak takes effect at one moment between its call and its return.   *)
(* An object whose last strong reference goes is destroyed once, by the thread whose operation took it, before that operation        *)
(* returns: destructor, then the references in its field, then the weak references to it become undef.                               *)
(* A history recorded from the implementation (calls, returns, destructor runs, final contents) must be one of this machine (Admits).*)
(* Part 2, the protocol of spvm_api.c in critical sections, explored: it keeps exact counts, frees every object once, never uses a   *)
(* freed one, and runs every destructor once (Safe).                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, RowFile, Merged
Data == JsonDeserialize(RowFile)
Rows == Data.rows
\* ------------------------------------------------------------- the meaning
\* a slot is <<object, weak>>; 0 is undef.  Slots "f"n are the fields of object n.
Undef == <<0, 0>>
Strong(sl, o) == Cardinality({d \in DOMAIN sl : sl[d] = <<o, 0>>})
\* state: sl slots, dead: object -> thread that took the last reference, des: destructor has run, fre: freed, pe: thread -> pending operation or <<>>, ud: the program relied on a reference another thread may drop
Set(s, t, d, v) == LET old == s.sl[d]
                       sl2 == [s.sl EXCEPT ![d] = v]
                       k == old[1] # 0 /\ old[2] = 0 /\ old[1] \notin DOMAIN s.dead /\ Strong(sl2, old[1]) = 0
                   IN [s EXCEPT !.sl = sl2, !.dead = IF k THEN @ @@ (old[1] :> t) ELSE @]
Fin(s, t, r) == [s EXCEPT !.pe[t] = [@ EXCEPT !.ph = "done", !.r = r]]
Dead(s, o) == o \in DOMAIN s.dead
\* the effect of the pending operation of t: a set of states
Eff(s, t) == LET x == s.pe[t] IN
   CASE x.o = "a" -> {Fin(Set(s, t, x.d, <<x.v, 0>>), t, 0)}
     [] x.o = "w" -> LET c == s.sl[x.d] IN IF c[1] = 0 \/ c[2] = 1 THEN {Fin(s, t, 0)}
                                           ELSE IF Strong(s.sl, c[1]) = 1 /\ ~Dead(s, c[1]) THEN {Fin(Set(s, t, x.d, Undef), t, 0)} ELSE {Fin([s EXCEPT !.sl[x.d] = <<c[1], 1>>], t, 0)}
     [] x.o = "u" -> LET c == s.sl[x.d] IN IF c[1] = 0 \/ c[2] = 0 THEN {Fin(s, t, 0)} ELSE {Fin([s EXCEPT !.sl[x.d] = <<c[1], 0>>, !.ud = @ \/ Dead(s, c[1])], t, 0)}
     [] x.o = "i" -> {Fin(s, t, s.sl[x.d][2])}
     \* reading a reference: it is looked at, then the object gets one more reference
     [] x.o = "r" -> IF x.ph = "look" THEN {Fin([Set(s, t, x.p, <<x.r, 0>>) EXCEPT !.ud = @ \/ Dead(s, x.r)], t, x.r)}
                     ELSE {[s EXCEPT !.pe[t] = [@ EXCEPT !.ph = "look", !.r = s.sl[x.d][1]], !.ud = @ \/ (s.sl[x.d][1] # 0 /\ Dead(s, s.sl[x.d][1]))]}
     \* a new object: the thread's temporary m holds it until the end
     [] x.o = "n" -> IF x.ph = "put" THEN {Fin(Set(s, t, "m" \o t, Undef), t, 0)} ELSE {[Set([s EXCEPT !.sl["m" \o t] = <<x.v, 0>>], t, x.d, <<x.v, 0>>) EXCEPT !.pe[t] = [@ EXCEPT !.ph = "put"]]}
Field(o) == "f" \o ToString(o)
\* silent steps: an effect; the field of a destroyed object is released; the object is freed
Silent(s) == UNION {Eff(s, t) : t \in {u \in DOMAIN s.pe : s.pe[u].o # "" /\ s.pe[u].ph # "done"}}
             \cup {Set(s, s.dead[o], Field(o), Undef) : o \in {p \in s.des : p \notin s.fre /\ s.sl[Field(p)] # Undef}}
             \cup {[s EXCEPT !.fre = @ \cup {o}, !.sl = [d \in DOMAIN s.sl |-> IF s.sl[d][1] = o THEN Undef ELSE s.sl[d]]] : o \in {p \in s.des : p \notin s.fre /\ s.sl[Field(p)] = Undef}}
RECURSIVE Closure(_,_)
Closure(acc, new) == IF new = {} THEN acc ELSE LET m == (UNION {Silent(s) : s \in new}) \ acc IN Closure(acc \cup m, m)
Idle == [o |-> "", ph |-> "", r |-> 0]
\* one recorded event
Event(S, e) == CASE e.e = "inv" -> {[s EXCEPT !.pe[e.t] = e.x] : s \in S}
                 [] e.e = "des" -> {[s EXCEPT !.des = @ \cup {e.o}] : s \in {q \in S : e.o \in DOMAIN q.dead /\ q.dead[e.o] = e.t /\ e.o \notin q.des}}
                 [] e.e = "ret" -> {[s EXCEPT !.pe[e.t] = Idle] : s \in {q \in S : q.pe[e.t].ph = "done" /\ q.pe[e.t].r = e.r /\ \A o \in DOMAIN q.dead : q.dead[o] = e.t => o \in q.fre}}
                 [] e.e = "fin" -> {s \in S : \A d \in DOMAIN e.sl : s.sl[d] = e.sl[d]}
RECURSIVE Admits(_,_,_)
\* 0 admitted, -1 the program relied on what it must not, else the first event that does not fit
Admits(S, ev, j) == IF j > Len(ev) THEN 0
                    ELSE LET c == Closure(S, S) IN IF \E s \in c : s.ud THEN -1
                         ELSE LET n == Event(c, ev[j]) IN IF n = {} THEN j ELSE Admits(n, ev, j + 1)
S0(r) == [sl |-> r.sl, dead |-> <<>>, des |-> {}, fre |-> {}, pe |-> r.pe, ud |-> FALSE]
\* ------------------------------------------------------------- the protocol
VARIABLES n, c, sl, st, td, dc, fr, bad
vars == <<n, c, sl, st, td, dc, fr, bad>>
RowInit == n = 0 /\ c = 0 /\ sl = 0 /\ st = 0 /\ td = 0 /\ dc = 0 /\ fr = 0 /\ bad = 0
RowNext == n < Len(Rows) /\ n' = n + 1 /\ UNCHANGED <<c, sl, st, td, dc, fr, bad>>
           /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", [bad |-> Admits({S0(Rows[n + 1])}, Rows[n + 1].ev, 1)])
Ts == {1, 2}
Os == 1 .. Data.objs
Flds == {Field(o) : o \in Os}
Shared == {"s1", "s2"}
Priv(t) == "p" \o ToString(t)
Slots == Shared \cup Flds \cup {Priv(t) : t \in Ts}
\* c: reference counts; sl: slots; st: per thread a stack of frames; td: operations left; dc: destructor runs; fr: freed; bad: a freed object was used
Init0 == \E p \in [Ts -> Os], g \in [Shared \cup Flds -> 0 .. Data.objs], w \in [Shared \cup Flds -> {0, 1}] :
          /\ \A d \in DOMAIN g : g[d] = 0 => w[d] = 0
          /\ \A o \in Os : g[Field(o)] # o /\ (g[Field(o)] # 0 /\ w[Field(o)] = 0 => g[Field(o)] > o)
          /\ sl = [d \in Slots |-> IF d \in DOMAIN g THEN <<g[d], w[d]>> ELSE IF d = Priv(1) THEN <<p[1], 0>> ELSE <<p[2], 0>>]
          /\ c = [o \in Os |-> Strong(sl, o)] /\ \A o \in Os : c[o] > 0
          /\ st = [t \in Ts |-> <<>>] /\ td = [t \in Ts |-> Data.ops] /\ dc = [o \in Os |-> 0] /\ fr = {} /\ bad = FALSE /\ n = 0
Touch(o) == bad' = (bad \/ (o # 0 /\ o \in fr))
Top(t) == Head(st[t])
\* the section that replaces the contents of slot d by v (strong), releasing what was there
Assign(t, d, v, rest) ==
   LET old == sl[d][1] wk == sl[d][2]
       c1 == [o \in Os |-> c[o] + (IF o = old /\ wk = 1 THEN 1 ELSE 0) + (IF o = v THEN 1 ELSE 0)]
   IN /\ bad' = (bad \/ (old # 0 /\ old \in fr) \/ (v # 0 /\ v \in fr))
      /\ sl' = [sl EXCEPT ![d] = <<v, 0>>]
      /\ IF old = 0 THEN c' = c1 /\ st' = [st EXCEPT ![t] = rest]
         ELSE IF Merged THEN (IF c1[old] > 1 THEN c' = [c1 EXCEPT ![old] = @ - 1] /\ st' = [st EXCEPT ![t] = rest]
                              ELSE c' = c1 /\ st' = [st EXCEPT ![t] = <<[k |-> "des", o |-> old]>> \o rest])
         ELSE c' = c1 /\ st' = [st EXCEPT ![t] = <<[k |-> "rel", o |-> old]>> \o rest]
      /\ UNCHANGED <<td, dc, fr>>
Rel(t) == LET o == Top(t).o IN /\ Touch(o) /\ UNCHANGED <<sl, td, dc, fr>>
             /\ IF c[o] > 1 THEN c' = [c EXCEPT ![o] = @ - 1] /\ st' = [st EXCEPT ![t] = Tail(@)] ELSE c' = c /\ st' = [st EXCEPT ![t] = <<[k |-> "des", o |-> o]>> \o Tail(@)]
Des(t) == LET o == Top(t).o IN /\ Touch(o) /\ dc' = [dc EXCEPT ![o] = @ + 1] /\ st' = [st EXCEPT ![t] = <<[k |-> "fld", o |-> o]>> \o Tail(@)] /\ UNCHANGED <<c, sl, td, fr>>
Fld(t) == LET o == Top(t).o IN Assign(t, Field(o), 0, <<[k |-> "fin", o |-> o]>> \o Tail(st[t]))
FinS(t) == LET o == Top(t).o IN /\ Touch(o) /\ c' = [c EXCEPT ![o] = @ - 1] /\ st' = [st EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<td, dc>>
              /\ IF c[o] = 1 THEN fr' = fr \cup {o} /\ sl' = [d \in Slots |-> IF sl[d] = <<o, 1>> THEN Undef ELSE sl[d]] ELSE UNCHANGED <<fr, sl>>
\* fields of an object that the thread itself holds, shared slots, the own slot
Reach(t) == Shared \cup {Priv(t)} \cup (IF sl[Priv(t)][1] = 0 THEN {} ELSE {Field(sl[Priv(t)][1])})
Less(t) == td' = [td EXCEPT ![t] = @ - 1]
Start(t) == /\ st[t] = <<>> /\ td[t] > 0
            /\ \/ \E d \in Reach(t), v \in {0, sl[Priv(t)][1]} :
                    /\ (d \in Flds /\ v # 0 => d # Field(v))
                    /\ st' = [st EXCEPT ![t] = <<[k |-> "asg", d |-> d, v |-> v]>>] /\ Less(t) /\ UNCHANGED <<c, sl, dc, fr, bad>>
               \/ \E d \in Shared \cup (Reach(t) \cap Flds) : /\ sl[d][1] # 0 /\ sl[d][2] = 0 /\ Less(t) /\ Touch(sl[d][1]) /\ UNCHANGED <<dc, fr>>
                    /\ IF c[sl[d][1]] = 1 THEN sl' = [sl EXCEPT ![d] = Undef] /\ c' = c /\ st' = [st EXCEPT ![t] = <<[k |-> "rel", o |-> sl[d][1]]>>]
                       ELSE sl' = [sl EXCEPT ![d] = <<@[1], 1>>] /\ c' = [c EXCEPT ![sl[d][1]] = @ - 1] /\ st' = st
               \* unweaken of a reference to an object that the thread itself holds
               \/ \E d \in Shared : /\ sl[d][2] = 1 /\ sl[d][1] = sl[Priv(t)][1] /\ Less(t) /\ Touch(sl[d][1]) /\ UNCHANGED <<dc, fr, st>>
                    /\ sl' = [sl EXCEPT ![d] = <<@[1], 0>>] /\ c' = [c EXCEPT ![sl[d][1]] = @ + 1]
Next0 == \E t \in Ts : /\ n' = n
                       /\ \/ Start(t)
                          \/ /\ st[t] # <<>>
                             /\ CASE Top(t).k = "asg" -> Assign(t, Top(t).d, Top(t).v, Tail(st[t]))
                                  [] Top(t).k = "rel" -> Rel(t) [] Top(t).k = "des" -> Des(t) [] Top(t).k = "fld" -> Fld(t) [] Top(t).k = "fin" -> FinS(t)
Init == IF Mode = "rows" THEN RowInit ELSE Init0
Next == IF Mode = "rows" THEN RowNext ELSE Next0
Spec == Init /\ [][Next]_vars
\* references that a thread in the middle of an operation still counts
InFlight(o) == LET S == {<<t, j>> \in Ts \X (1 .. 6) : j <= Len(st[t]) /\ st[t][j].k \in {"rel", "des", "fld", "fin"} /\ st[t][j].o = o} IN Cardinality(S)
Quiet == \A t \in Ts : st[t] = <<>>
Safe == Mode = "model" => /\ ~bad
                          /\ \A o \in Os : dc[o] <= 1
                          /\ \A o \in Os : o \notin fr => c[o] = Strong(sl, o) + InFlight(o)
                          /\ \A d \in Slots : sl[d][1] \notin fr
                          /\ Quiet => \A o \in Os : (Strong(sl, o) = 0) = (o \in fr)
==============================================================================
