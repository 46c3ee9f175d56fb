------------------------------- MODULE Dispatch -------------------------------
(* C08: which method a call runs.  A hierarchy of classes 1 <- 2 <- ... <- N (2 extends 1, ...); every class declares m as an      *)
(* instance method ("i"), a class method ("s") or not at all ("-"); an interface, number 0, declares m ("decl", "body": with a     *)
(* block, "req": required) or not ("none").  Resolution is a walk: the state is the class the search has reached.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT N
Kinds == {"-", "i", "s"}
IKinds == {"none", "decl", "body", "req"}
Configs == [def : [1..N -> Kinds], ik : IKinds]
\* ---- the search, from a class upwards: the class the nearest declaration is in, 0 if there is none
RECURSIVE Find(_, _)
Find(g, k) == IF k = 0 THEN 0 ELSE IF g.def[k] # "-" THEN k ELSE Find(g, k - 1)
Inst(g, k) == LET f == Find(g, k) IN f # 0 /\ g.def[f] = "i"
\* ---- a class may only override an instance method with an instance method; this holds for every class that inherits it too
ClassOk(g, k) == \A p \in 1..(k - 1) : g.def[p] = "i" => Inst(g, k)
Ok(g) == \A k \in 1..N : ClassOk(g, k)
\* ---- the interface is satisfied by a class if the method found (if any) is an instance method, and found if required
Sat(g, k) == /\ g.ik = "req" => Find(g, k) # 0
             /\ g.ik # "none" /\ Find(g, k) # 0 => Inst(g, k)
\* ---- the calls: outcome "E" compile error, "X" exception at run time, else the class whose method runs (0: the interface's)
Dyn(g, s, d)  == IF ~Inst(g, s) THEN "E" ELSE ToString(Find(g, d))                \* $o->m, static type s, object of class d >= s
Super(g, s)   == IF s > 1 /\ Inst(g, s - 1) THEN ToString(Find(g, s - 1)) ELSE "E"  \* $o->SUPER::m
Qual(g, s, k) == IF k <= s /\ g.def[k] = "i" THEN ToString(k) ELSE "E"             \* $o->K::m: only a method K declares itself
QualI(g, s)   == IF ~Sat(g, s) \/ g.ik = "none" THEN "E" ELSE IF g.ik = "body" THEN "0" ELSE "X"
Static(g, k)  == IF g.def[k] = "s" THEN ToString(k) ELSE "E"                        \* K->m: not inherited
ViaI(g, s, d) == IF ~Sat(g, s) \/ g.ik = "none" THEN "E" ELSE IF Inst(g, d) THEN ToString(Find(g, d)) ELSE "X"   \* through a variable of type I
CanOp(g, s, d) == IF Find(g, s) = 0 THEN "E" ELSE IF Inst(g, d) THEN "1" ELSE "0"
CanI(g, s, d)  == IF ~Sat(g, s) \/ g.ik = "none" THEN "E" ELSE IF Inst(g, d) THEN "1" ELSE "0"
Pairs == {<<s, d>> \in (1..N) \X (1..N) : s <= d}
Row(g) == [def |-> g.def, ik |-> g.ik, ok |-> Ok(g),
   q |-> IF ~Ok(g) THEN <<>> ELSE SetToSeq(
     {<<"dyn", p[1], p[2], Dyn(g, p[1], p[2])>> : p \in Pairs} \cup {<<"super", s, s, Super(g, s)>> : s \in 1..N}
     \cup {<<"qual", s, k, Qual(g, s, k)>> : s \in 1..N, k \in 1..N} \cup {<<"quali", s, s, QualI(g, s)>> : s \in 1..N}
     \cup {<<"static", k, k, Static(g, k)>> : k \in 1..N} \cup {<<"viai", p[1], p[2], ViaI(g, p[1], p[2])>> : p \in Pairs}
     \cup {<<"can", p[1], p[2], CanOp(g, p[1], p[2])>> : p \in Pairs} \cup {<<"cani", p[1], p[2], CanI(g, p[1], p[2])>> : p \in Pairs})]
VARIABLES conf, done
Init == conf \in Configs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED conf
        /\ JsonSerialize("g_" \o FoldLeft(LAMBDA a, b : a \o b, "", conf.def) \o "_" \o conf.ik \o ".json", Row(conf))
\* ---- laws
\* a call that compiles finds an instance method in every subclass (no call through a class type can fail to dispatch)
Safe == Ok(conf) => \A p \in Pairs : Inst(conf, p[1]) => Inst(conf, p[2])
\* an object of a class that satisfies the interface may be of a subclass that does not: only if the subclass declares m "s"
Subst == Ok(conf) => \A p \in Pairs : Sat(conf, p[1]) /\ ~Sat(conf, p[2]) => ~Inst(conf, p[1])
\* SUPER::m from the class that overrides runs exactly what the parent alone would run
SuperLaw == Ok(conf) => \A s \in 2..N : Inst(conf, s - 1) => Super(conf, s) = Dyn(conf, s - 1, s - 1)
===============================================================================
