------------------------------- MODULE Store -------------------------------
(* C12: places.  Every variable, field, element, multi-numeric field and captured value is a cell of its own in a flat  *)
(* memory; a read gives the value last written to that cell.  Values are tokens (0 = zero/undef); variables that hold   *)
(* an object, an array or a reference hold the address of its first cell.  A program is a tree of statements; names are *)
(* bound to cells by scope; every call has fresh cells for its parameters and variables.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)
RetCells == 8                       \* cells 1..8: the value a method returns

\* a place: [n: name, i: 1 = through the address stored in n, o: offset]
Addr(env, mem, p) == IF p.i = 1 THEN mem[env[p.n]] + p.o ELSE env[p.n] + p.o
Fresh(st) == Len(st.mem) + 1
Zero(n) == [j \in 1..n |-> 0]
RECURSIVE Put(_, _, _)
Put(mem, a, vs) == IF vs = <<>> THEN mem ELSE Put([mem EXCEPT ![a] = Head(vs)], a + 1, Tail(vs))
Write(st, a, vs) == [st EXCEPT !.mem = Put(@, a, vs)]
Read(st, a, w) == SubSeq(st.mem, a, a + w - 1)
Alloc(st, vs) == [st EXCEPT !.mem = @ \o vs]

RECURSIVE Exec(_, _, _, _, _), Rep(_, _, _, _, _, _), Bind(_, _, _, _, _), Caps(_, _, _)
Exec(P, ss, env, st, fuel) ==
  IF ss = <<>> THEN st
  ELSE LET s == Head(ss)  r == Tail(ss)  A == Addr(env, st.mem, s.p)
  IN CASE s.s = "my"   -> Exec(P, r, (s.n :> Fresh(st)) @@ env, Alloc(st, s.v), fuel)                  \* a variable of Len(v) cells
       [] s.s = "addr" -> Exec(P, r, (s.n :> Fresh(st)) @@ env, Alloc(st, <<A>>), fuel)                \* my $n = \p
       [] s.s = "new"  -> LET b == Fresh(st) IN Exec(P, r, env, Write(Alloc(st, Zero(s.w)), A, <<b>>), fuel)   \* p = new ...
       [] s.s = "cap"  -> LET b == Fresh(st) IN Exec(P, r, (s.n :> b + Len(s.ps)) @@ env, Alloc(st, Caps(s.ps, env, st) \o <<b>>), fuel)
       [] s.s = "set"  -> Exec(P, r, env, Write(st, A, <<s.v>>), fuel)
       [] s.s = "cp"   -> Exec(P, r, env, Write(st, A, Read(st, Addr(env, st.mem, s.q), s.w)), fuel)
       [] s.s = "say"  -> Exec(P, r, env, [st EXCEPT !.obs = Append(@, st.mem[A])], fuel)
       [] s.s = "blk"  -> Exec(P, r, env, Exec(P, s.b, env, st, fuel), fuel)
       [] s.s = "loop" -> Exec(P, r, env, Rep(P, s.b, s.k, env, st, fuel), fuel)
       [] s.s = "ret"  -> Write(st, 1, Read(st, A, s.w))
       [] s.s = "call" -> IF fuel = 0 THEN Exec(P, r, env, st, fuel)
                          ELSE LET b  == Bind(P.methods[s.m].params, s.args, env, P.genv, st)
                                   s2 == Exec(P, P.methods[s.m].body, b.env, b.st, fuel - 1)
                               IN Exec(P, r, env, IF s.w = 0 THEN s2 ELSE Write(s2, A, Read(s2, 1, s.w)), fuel)
Rep(P, b, k, env, st, fuel) == IF k = 0 THEN st ELSE Rep(P, b, k - 1, env, Exec(P, b, env, st, fuel), fuel)
Caps(ps, env, st) == IF ps = <<>> THEN <<>> ELSE <<st.mem[Addr(env, st.mem, Head(ps))]>> \o Caps(Tail(ps), env, st)
\* an argument is a copy of the cells of a place ("val"), or the address of a place ("ref")
Bind(ps, as, env, e, st) ==
  IF ps = <<>> THEN [env |-> e, st |-> st]
  ELSE LET a == Addr(env, st.mem, Head(as).p)
           vs == IF Head(as).k = "ref" THEN <<a>> ELSE Read(st, a, Head(as).w)
       IN Bind(Tail(ps), Tail(as), env, (Head(ps) :> Fresh(st)) @@ e, Alloc(st, vs))
Start(P) == [mem |-> Zero(RetCells) \o P.gmem, obs |-> <<>>]
Result(P) == Exec(P, P.main, P.genv, Start(P), P.fuel).obs

VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Result(Rows[n+1]))

\* laws of the memory, over all small memories: a write is read back, and no other cell changes; fresh cells are new
Mems == UNION {[1..k -> 0..2] : k \in 1..3}
Laws == \A m \in Mems, v \in 0..2 : LET st == [mem |-> m, obs |-> <<>>] IN
   /\ \A a \in DOMAIN m : /\ Read(Write(st, a, <<v>>), a, 1) = <<v>>
                          /\ \A b \in DOMAIN m : b # a => Write(st, a, <<v>>).mem[b] = m[b]
   /\ Fresh(st) \notin DOMAIN m /\ \A b \in DOMAIN m : Alloc(st, <<v>>).mem[b] = m[b]
\* a parameter is a copy: what a method does to it is not seen by the caller; through a reference it is
Copies == LET V == [s |-> "my", n |-> "x", v |-> <<1>>]
              Pl(nm, i) == [n |-> nm, i |-> i, o |-> 0]
              Call(k) == [s |-> "call", m |-> "f", w |-> 0, p |-> Pl("x", 0), args |-> <<[k |-> k, p |-> Pl("x", 0), w |-> 1]>>]
              Prog(k, i) == [methods |-> [f |-> [params |-> <<"q">>, body |-> <<[s |-> "set", p |-> Pl("q", i), v |-> 2]>>]], genv |-> [g |-> 5], gmem |-> <<0>>, fuel |-> 2,
                             main |-> <<V, Call(k), [s |-> "say", p |-> Pl("x", 0)]>>]
          IN Result(Prog("val", 0)) = <<1>> /\ Result(Prog("ref", 1)) = <<2>>
============================================================================
