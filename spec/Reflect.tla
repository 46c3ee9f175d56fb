------------------------------- MODULE Reflect -------------------------------
(* C29: what a program is told about its classes (Native::Runtime, Native::BasicType, Native::Method, Native::Field, Native::ClassVar,    *)
(* Native::Arg) is what was declared.  A class describes itself with the fields of the classes it extends and its own, in this order, its *)
(* class variables, its methods - those declared, the getters and setters its fields and class variables ask for, its enumerations, its   *)
(* INIT - and the classes of the anonymous methods in it.  A type is [t basic type, d dimension, f flags: 1 reference, 2 mutable].         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RowFile
Data == JsonDeserialize(RowFile)
Rows == Data.rows
VARIABLES n
Types(p) == {p[j].name : j \in 1 .. Len(p)}
Class(p, c) == p[CHOOSE j \in 1 .. Len(p) : p[j].name = c]
RECURSIVE AllFields(_,_)
AllFields(p, c) == (IF c.ext = "" THEN <<>> ELSE AllFields(p, Class(p, c.ext))) \o c.fields
Category(c) == CASE c.kind = "interface_t" -> 7 [] c.kind = "mulnum_t" -> 4 [] OTHER -> 6
Void == [t |-> "void", d |-> 0, f |-> 0]
Ty(x) == [t |-> x.t, d |-> x.d, f |-> x.f]
\* the type of a getter's value and of a setter's argument
Wide(x) == IF x.d = 0 /\ x.t \in {"byte", "short"} THEN [t |-> "int", d |-> 0, f |-> 0] ELSE Ty(x)
Arg(ty) == [ty |-> ty, opt |-> 0, def |-> ""]
Self(c) == Arg([t |-> c, d |-> 0, f |-> 0])
Mth(name, ret, args, static, pre, enum, anon) == [name |-> name, ret |-> ret, args |-> args, req |-> Cardinality({j \in 1 .. Len(args) : args[j].opt = 0}), static |-> static, pre |-> pre, enum |-> enum, anon |-> anon]
Params(m) == [j \in 1 .. Len(m.args) |-> [ty |-> Ty(m.args[j]), opt |-> IF m.args[j].opt THEN 1 ELSE 0, def |-> m.args[j].def]]
B(x) == IF x THEN 1 ELSE 0
Reads(x) == x.acc \in {"ro", "rw"}
Writes(x) == x.acc \in {"wo", "rw"}
At(s) == 1 .. Len(s)
Methods(c) ==
   {Mth(c.methods[j].name, Ty(c.methods[j]), (IF c.methods[j].inst THEN <<Self(c.name)>> ELSE <<>>) \o Params(c.methods[j]), B(~c.methods[j].inst), B(c.methods[j].pre), 0, 0) : j \in At(c.methods)}
   \cup {Mth(c.fields[j].name, Wide(c.fields[j]), <<Self(c.name)>>, 0, 0, 0, 0) : j \in {k \in At(c.fields) : Reads(c.fields[k])}}
   \cup {Mth("set_" \o c.fields[j].name, Void, <<Self(c.name), Arg(Wide(c.fields[j]))>>, 0, 0, 0, 0) : j \in {k \in At(c.fields) : Writes(c.fields[k])}}
   \cup {Mth(c.vars[j].name, Wide(c.vars[j]), <<>>, 1, 0, 0, 0) : j \in {k \in At(c.vars) : Reads(c.vars[k])}}
   \cup {Mth("SET_" \o c.vars[j].name, Void, <<Arg(Wide(c.vars[j]))>>, 1, 0, 0, 0) : j \in {k \in At(c.vars) : Writes(c.vars[k])}}
   \cup {Mth(c.enums[j], [t |-> "int", d |-> 0, f |-> 0], <<>>, 1, 0, 1, 0) : j \in At(c.enums)}
   \cup {Mth("INIT", Void, <<>>, 1, 0, 0, 0)}
   \cup (IF c.destroy THEN {Mth("DESTROY", Void, <<Self(c.name)>>, 0, 0, 0, 0)} ELSE {})
\* the classes of the anonymous methods, in the order they are written
RECURSIVE Anons(_,_)
Anons(c, j) == IF j > Len(c.methods) THEN <<>> ELSE c.methods[j].anons \o Anons(c, j + 1)
Fld(x) == [name |-> x.name, ty |-> Ty(x)]
Anon(a) == [fields |-> [j \in At(a.caps) |-> Fld(a.caps[j])],
            methods |-> {Mth("", Ty(a), <<Self("anon")>> \o Params(a), 0, 0, 0, 1), Mth("INIT", Void, <<>>, 1, 0, 0, 0)}]
Describe(p, c) == [name |-> c.name, cat |-> Category(c), parent |-> c.ext, ver |-> c.ver, ptr |-> B(c.ptr),
                   fields |-> LET s == AllFields(p, c) IN [j \in At(s) |-> Fld(s[j])],
                   vars |-> {[name |-> c.vars[j].name, ty |-> Ty(c.vars[j])] : j \in At(c.vars)},
                   methods |-> Methods(c), anons |-> LET s == Anons(c, 1) IN [j \in At(s) |-> Anon(s[j])]]
\* what is asked for by name
Asked(p, q) ==
   IF q.cls \notin Types(p) THEN "no class"
   ELSE LET c == Class(p, q.cls)
        IN CASE q.kind = "method" -> IF \E m \in Methods(c) : m.name = q.name THEN "found" ELSE "none"
             [] q.kind = "field" -> IF \E j \in At(AllFields(p, c)) : AllFields(p, c)[j].name = q.name THEN "found" ELSE "none"
             [] OTHER -> IF \E j \in At(c.vars) : c.vars[j].name = q.name THEN "found" ELSE "none"
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1
        /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", [classes |-> [j \in At(Rows[n + 1].classes) |-> Describe(Rows[n + 1].classes, Rows[n + 1].classes[j])],
                                                                asked |-> [j \in At(Rows[n + 1].asks) |-> Asked(Rows[n + 1].classes, Rows[n + 1].asks[j])]])
Spec == Init /\ [][Next]_n
\* names are not shared, a class knows at least what those it extends have, and what is optional comes last
Sound == n > 0 => LET p == Rows[n].classes IN \A j \in At(p) :
            /\ \A a, b \in Methods(p[j]) : a.name = b.name => a = b
            /\ (p[j].ext # "" => \A k \in At(AllFields(p, Class(p, p[j].ext))) : AllFields(p, p[j])[k] = AllFields(p, Class(p, p[j].ext))[k])
            /\ \A m \in Methods(p[j]) : \A k \in At(m.args) : (m.args[k].opt = 0) <=> k <= m.req
==============================================================================
