-------------------------------- MODULE Access --------------------------------
(* C09: who may use a member.  Classes: D declares it; S1 extends D, S2 extends S1, R extends D; A is named in an allow statement   *)
(* of D, AC extends A; B is named in an allow statement of S1; U is unrelated.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
Cls == {"D", "S1", "S2", "R", "U", "A", "AC", "B"}
Parent == [c \in Cls |-> CASE c = "S1" -> "D" [] c = "S2" -> "S1" [] c = "R" -> "D" [] c = "AC" -> "A" [] OTHER -> "-"]
Allows == [c \in Cls |-> CASE c = "D" -> {"A"} [] c = "S1" -> {"B"} [] OTHER -> {}]
RECURSIVE IsSub(_, _)
IsSub(x, y) == x # "-" /\ (x = y \/ IsSub(Parent[x], y))
Attrs == {"", "public", "protected", "private"}
Kinds == {"method", "smethod", "super", "qual", "cvar", "field", "new", "enum", "getter", "setter"}
Eff(k, a) == IF a # "" THEN a ELSE IF k \in {"method", "smethod", "super", "qual", "enum"} THEN "public" ELSE "private"
\* the class the access is decided in: a field in the class of the invocant, everything else where it is declared
Holder(k, t) == IF k = "field" THEN t ELSE "D"
May(k, a, x, t) == LET h == Holder(k, t) e == Eff(k, a) IN
  IF k \in {"getter", "setter"} THEN TRUE                 \* accessors are public whatever the attribute of the member
  ELSE CASE e = "public" -> TRUE
         [] e = "protected" -> IsSub(x, h) \/ x \in Allows[h]
         [] e = "private" -> (x = h /\ h = "D") \/ x \in Allows[h]   \* an inherited private field is not the subclass's own
Targets(k) == IF k \in {"method", "field", "getter", "setter", "qual"} THEN {"D", "S1", "S2"} ELSE IF k = "super" THEN {"S1"} ELSE {"D"}
Rows == {[k |-> k, a |-> a, x |-> x, t |-> t, ok |-> May(k, a, x, t)] : k \in Kinds, a \in Attrs, x \in Cls, t \in {"D", "S1", "S2"}}
\* ---- accessors: which methods exist
Getter(a) == a \in {"ro", "rw"}
Setter(a) == a \in {"wo", "rw"}
AccRows == {[a |-> a, v |-> v, get |-> Getter(a), set |-> Setter(a)] : a \in {"", "ro", "wo", "rw"}, v \in Attrs}
\* ---- what an accessor of a narrow type takes and gives
Wrap(v, n) == LET m == 2^n r == v % m IN IF r >= m \div 2 THEN r - m ELSE r
Vals == {0, 1, -1, 127, 128, -128, -129, 255, 256, 300, 32767, 32768, -32768, -32769, 65535, 65536, 70000}
NarRows == {[v |-> v, b |-> Wrap(v, 8), s |-> Wrap(v, 16)] : v \in Vals}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize("access.json",
   [rows |-> SetToSeq({r \in Rows : r.t \in Targets(r.k)}), acc |-> SetToSeq(AccRows), nar |-> SetToSeq(NarRows)])
\* ---- laws: public admits all, each weaker attribute admits fewer, the declaring class itself is never shut out
Monotone == \A k \in Kinds \ {"getter", "setter"}, x \in Cls, t \in {"D", "S1", "S2"} :
   /\ May(k, "private", x, t) => May(k, "protected", x, t)
   /\ May(k, "protected", x, t) => May(k, "public", x, t)
Own == \A k \in Kinds, a \in Attrs : May(k, a, "D", "D")
Outsider == \A k \in Kinds \ {"getter", "setter"}, x \in {"U", "AC"} : ~May(k, "protected", x, "D")
===============================================================================
