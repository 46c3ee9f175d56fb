-------------------------------- MODULE Types --------------------------------
(* C06, C07: the assignment and cast requirements between types, and what a value of a type may be at run time.  *)
(* A type is [n name, c category, b basic type, r rank among the numeric types, d dimension, m mutable, p ref].  *)
(* Categories: num, nobj (Int ...), str, cls, ifc, any (object), mul (multi-numeric), undef, void.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth,     \* largest array dimension
          What       \* which tables to write: static, dynamic
VARIABLE i
Nums == <<"byte", "short", "int", "long", "float", "double">>
NObjs == {"Byte", "Short", "Int", "Long", "Float", "Double"}
NObj == <<"Byte", "Short", "Int", "Long", "Float", "Double">>
Classes == {"TyA", "TyB", "TyC", "TyX", "TyN", "TyW", "TyD"}
Ifcs == {"TyI0", "TyI1", "TyI2", "TyI3"}
Muls == {"Complex_2f", "Complex_2d"}
Parent == [c \in Classes |-> CASE c = "TyB" -> "TyA" [] c = "TyC" -> "TyB" [] c = "TyD" -> "TyA" [] OTHER -> "-"]
\* methods defined in a class or interface: name -> signature ("-" not there).  m1 : int (), m2 : int ($x : int)
Own == [TyA |-> [m1 |-> "i()", m2 |-> "-"], TyB |-> [m1 |-> "-", m2 |-> "i(i)"], TyC |-> [m1 |-> "i()", m2 |-> "-"],
        TyX |-> [m1 |-> "i()", m2 |-> "i(i)"], TyN |-> [m1 |-> "-", m2 |-> "-"], TyW |-> [m1 |-> "s()", m2 |-> "-"],
        TyD |-> [m1 |-> "-", m2 |-> "-"],
        TyI0 |-> [m1 |-> "i()", m2 |-> "-"], TyI1 |-> [m1 |-> "i()", m2 |-> "-"], TyI2 |-> [m1 |-> "i()", m2 |-> "i(i)"],
        TyI3 |-> [m1 |-> "-", m2 |-> "i(i)"]]
\* the methods an interface requires; TyI0 has m1 with a body
Required == [TyI0 |-> {}, TyI1 |-> {"m1"}, TyI2 |-> {"m1", "m2"}, TyI3 |-> {"m2"}]
RECURSIVE Super(_), Found(_,_)
Super(c) == IF c \in Classes /\ Parent[c] # "-" THEN {Parent[c]} \cup Super(Parent[c]) ELSE {}      \* proper ancestors
Found(c, m) == IF Own[c][m] # "-" THEN Own[c][m] ELSE IF c \in Classes /\ Parent[c] # "-" THEN Found(Parent[c], m) ELSE "-"
\* interface requirement
Has(c, ifc) == c = ifc \/ \A m \in {"m1", "m2"} :
                 Own[ifc][m] # "-" => /\ (m \in Required[ifc] => Found(c, m) # "-")
                                      /\ (Found(c, m) # "-" => Found(c, m) = Own[ifc][m])

Ty(n, c, b, r, d, m, p) == [n |-> n, c |-> c, b |-> b, r |-> r, d |-> d, m |-> m, p |-> p]
Dims(d) == CASE d = 0 -> "" [] d = 1 -> "[]" [] d = 2 -> "[][]" [] OTHER -> "[][][]"
Basics == {<<"num", Nums[j], j>> : j \in 1..6} \cup {<<"nobj", NObj[j], j>> : j \in 1..6} \cup {<<"cls", c, 0>> : c \in Classes}
          \cup {<<"ifc", c, 0>> : c \in Ifcs} \cup {<<"mul", c, 0>> : c \in Muls} \cup {<<"str", "string", 0>>}
Arr(b, d) == Ty(b[2] \o Dims(d), b[1], b[2], b[3], d, FALSE, FALSE)
\* array types of every basic type would make the table large without adding rules: a selection
ArrB == {b \in Basics : b[2] \in {"byte", "int", "double", "Int", "TyA", "TyB", "TyX", "TyI1", "TyI2", "Complex_2d", "string"}}
ArrB2 == {b \in ArrB : b[2] \in {"byte", "int", "TyA", "TyB", "TyX", "TyI1", "TyI2", "string"}}
Types == {Arr(b, 0) : b \in Basics} \cup {Arr(b, 1) : b \in ArrB} \cup {Arr(b, d) : b \in ArrB2, d \in 2..Depth}
         \cup {Ty("mutable string", "str", "string", 0, 0, TRUE, FALSE), Ty("object", "any", "object", 0, 0, FALSE, FALSE),
               Ty("object[]", "any", "object", 0, 1, FALSE, FALSE),
               Ty("int*", "num", "int", 3, 0, FALSE, TRUE), Ty("double*", "num", "double", 6, 0, FALSE, TRUE),
               Ty("Complex_2d*", "mul", "Complex_2d", 0, 0, FALSE, TRUE)}
Undef == Ty("undef", "undef", "undef", 0, 0, FALSE, FALSE)
From == Types \cup {Undef}

IsNum(t) == t.c = "num" /\ t.d = 0 /\ ~t.p
IsMul(t) == t.c = "mul" /\ t.d = 0 /\ ~t.p
IsObj(t) == ~t.p /\ t.c # "undef" /\ (t.d > 0 \/ t.c \notin {"num", "mul"})
IsAny(t) == t.c = "any" /\ t.d = 0
IsObjArr(t) == t.d > 1 \/ (t.d = 1 /\ t.c \notin {"num", "mul"})
Same(t, f) == t.b = f.b /\ t.d = f.d /\ t.p = f.p
\* one basic type of objects may stand for another
Sub(tb, fb) == tb = fb \/ (fb \in Classes /\ tb \in Super(fb)) \/ (tb \in Ifcs /\ fb \in Classes \cup Ifcs /\ Has(fb, tb))
               \/ (tb \in Ifcs /\ fb \in NObjs /\ Required[tb] = {})     \* Int and the like are classes without these methods

CanAssign(t, f) ==
  CASE t.p \/ f.p -> Same(t, f)
    [] IsNum(t) -> \/ IsNum(f) /\ f.r <= t.r
                   \/ f.c = "nobj" /\ f.d = 0 /\ f.r = t.r
                   \/ IsAny(f)
    [] IsMul(t) -> Same(t, f)
    [] f.c = "undef" -> TRUE
    [] t.c = "str" /\ t.d = 0 -> (f.c = "str" /\ f.d = 0 /\ (t.m => f.m)) \/ IsNum(f)
    [] t.c = "nobj" /\ t.d = 0 -> Same(t, f) \/ (IsNum(f) /\ f.r = t.r)
    [] IsAny(t) -> IsNum(f) \/ IsObj(f)
    [] t.c = "any" /\ t.d = 1 -> IsObjArr(f)
    [] t.c \in {"num", "nobj", "mul", "str"} -> Same(t, f)
    [] OTHER -> f.d = t.d /\ Sub(t.b, f.b)

\* a cast may also go the other way, checked at run time
CanCast(t, f) ==
  CASE t.p \/ f.p -> Same(t, f)
    [] IsNum(t) -> IsNum(f) \/ (f.c = "nobj" /\ f.d = 0 /\ f.r = t.r) \/ IsAny(f) \/ (f.c = "str" /\ f.d = 0)
    [] IsMul(t) -> Same(t, f)
    [] f.c = "undef" -> TRUE
    [] IsAny(f) -> TRUE
    [] t.c = "str" /\ t.d = 0 -> (f.c = "str" /\ f.d = 0) \/ IsNum(f) \/ (f.b = "byte" /\ f.d = 1)
    [] t.c = "nobj" /\ t.d = 0 -> Same(t, f) \/ (IsNum(f) /\ f.r = t.r)
    [] IsAny(t) -> IsNum(f) \/ IsObj(f)
    [] t.c = "any" /\ t.d = 1 -> IsObjArr(f)
    [] t.b = "byte" /\ t.d = 1 -> Same(t, f) \/ (f.c = "str" /\ f.d = 0)
    [] f.c = "any" /\ f.d = 1 -> t.d > 1 \/ (t.d = 1 /\ t.c \in {"str", "cls", "ifc", "nobj"})
    [] t.c \in {"num", "nobj", "mul", "str"} -> Same(t, f)
    [] OTHER -> f.d = t.d /\ (Sub(t.b, f.b) \/ (t.c = "cls" /\ f.c = "cls" /\ t.b \in Classes /\ Sub(f.b, t.b))
                              \/ (t.c = "cls" /\ f.c = "ifc" /\ Has(t.b, f.b))
                              \/ (t.c = "ifc" /\ f.c = "ifc" /\ FALSE))

\* ------------------------------------------------------------------ run time
\* types an object may really have
Dyn == {t \in Types : IsObj(t) /\ t.c # "ifc" /\ ~IsAny(t) /\ ~t.m} \cup {t \in Types : t.c = "ifc" /\ t.d > 0}
\* holds without conversion: what isa answers, what a cast lets through, what an element store accepts
Holds(t, f) == IsObj(t) /\ CASE IsAny(t) -> TRUE
                             [] t.c = "any" /\ t.d = 1 -> IsObjArr(f)
                             [] t.c \in {"cls", "ifc"} -> f.d = t.d /\ f.c \in {"cls", "ifc", "nobj"} /\ Sub(t.b, f.b)
                             [] OTHER -> Same(t, f)

\* ------------------------------------------------------------------ literals
\* the integer literal of sign s (1 or -1) and size 2^p + d, of type int or long; a floating point literal has p = -1
Bits(r) == <<8, 16, 32, 64>>[r]
LitFits(s, p, d, n) == p < n - 1 \/ (p = n - 1 /\ (IF s = 1 THEN d < 0 ELSE d <= 0))
Lits == {x \in {<<k, s, p, d>> : k \in {"int", "long"}, s \in {1, -1}, p \in {0, 6, 7, 8, 15, 16, 31, 32, 62, 63}, d \in {-1, 0, 1}} :
            LitFits(x[2], x[3], x[4], IF x[1] = "int" THEN 32 ELSE 64)}
        \cup {<<k, s, -1, 0>> : k \in {"float", "double"}, s \in {1, -1}}
LitRank(k) == CASE k = "int" -> 3 [] k = "long" -> 4 [] k = "float" -> 5 [] k = "double" -> 6
LitAssign(r, x) == \/ LitRank(x[1]) <= r
                   \/ x[3] >= 0 /\ r <= 4 /\ LitFits(x[2], x[3], x[4], Bits(r))
                   \/ x[3] = -1 /\ r = 5

Obj == {t \in Types : IsObj(t) /\ ~t.m}
Conv(t, s) == (t.b = "byte" /\ t.d = 1 /\ s.c = "str" /\ s.d = 0) \/ (s.b = "byte" /\ s.d = 1 /\ t.c = "str" /\ t.d = 0)   \* a copy is made
\* an object of type d in a variable of type s meets the operators isa, is_type and a cast to t
Casts == {x \in Obj \X Obj \X Dyn : Holds(x[2], x[3]) /\ CanCast(x[1], x[2]) /\ ~Conv(x[1], x[2])}
\* an object of type d is stored through a variable of type a[] in an array that really is x[]
Elem(t) == {e \in Types : ~e.m /\ e.b = t.b /\ e.d = t.d - 1 /\ IsObj(e)}
Stores == {x \in {t \in Obj : t.d > 0} \X {t \in Dyn : t.d > 0} \X Dyn :
             Holds(x[1], x[2]) /\ \E e \in Elem(x[1]), f \in Elem(x[2]) : Holds(e, x[3])}
ElemOf(t) == CHOOSE e \in Elem(t) : TRUE
N(b) == IF b THEN 1 ELSE 0
Static == [static |-> {<<x[1].n, x[2].n, N(CanAssign(x[1], x[2])), N(CanCast(x[1], x[2]))>> : x \in Types \X From},
        lits |-> {<<Nums[x[1]], x[2][1], x[2][2], x[2][3], x[2][4], N(LitAssign(x[1], x[2]))>> : x \in (1..6) \X Lits}]
Dynamic == [dyn |-> {<<x[1].n, x[2].n, N(Holds(x[1], x[2])), N(Same(x[1], x[2]))>> : x \in Obj \X Dyn},
        casts |-> {<<x[1].n, x[2].n, x[3].n, N(Holds(x[1], x[3]) \/ CanAssign(x[1], x[2])), N(Holds(x[1], x[3])), N(Same(x[1], x[3]))>> : x \in Casts},
        stores |-> {<<ElemOf(x[1]).n, ElemOf(x[2]).n, x[3].n, N(Holds(ElemOf(x[2]), x[3]))>> : x \in Stores},
        unbox |-> {<<Nums[x[1]], x[2].n, N(x[2].c = "nobj" /\ x[2].d = 0 /\ x[2].r = x[1])>> : x \in (1..6) \X Dyn},
        errs |-> {<<x[1], x[2], N(x[1] = x[2] \/ x[1] \in Super(x[2])), N(x[1] = x[2])>> : x \in Classes \X Classes}]
Types0 == {[n |-> t.n, c |-> t.c, b |-> t.b, d |-> t.d, p |-> t.p, m |-> t.m] : t \in Types}
Init == i = 0
Next == i = 0 /\ i' = 1 /\ JsonSerialize("types.json", [types |-> Types0, d |-> IF What = "static" THEN Static ELSE Dynamic])
\* laws
Reflexive == \A t \in Types : CanAssign(t, t)
AssignIsCast == \A t \in Types, f \in From : CanAssign(t, f) => CanCast(t, f)
\* assignment between object types is transitive where no conversion takes part and no interface is assigned to an
\* interface (TyI0 has a body for m1, so it may be assigned to TyI1; an object of TyN may be held by TyI0 only)
Transitive == \A a, b, c \in {t \in Types : IsObj(t) /\ t.c # "nobj" /\ ~t.m} :
                 CanAssign(a, b) /\ CanAssign(b, c) /\ ~(a.c = "ifc" /\ b.c = "ifc") => CanAssign(a, c)
\* what static assignment lets through is what the place may hold
Sound == \A t \in {x \in Types : IsObj(x) /\ ~x.m}, f \in {x \in Dyn : ~x.m} : CanAssign(t, f) <=> Holds(t, f)
\* a cast that is also an assignment lets every object through; whatever a cast lets through its place may hold
\* (but for an interface from an interface, which has no check at run time; see Transitive)
CastSound == \A x \in Casts : CanAssign(x[1], x[2]) /\ ~(x[1].c = "ifc" /\ x[2].c = "ifc") => Holds(x[1], x[3])
\* storing through a variable of the array's own type never fails
StoreSound == \A x \in Stores : Same(x[1], x[2]) => Holds(ElemOf(x[2]), x[3])
==============================================================================
