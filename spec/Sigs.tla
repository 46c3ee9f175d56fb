--------------------------------- MODULE Sigs ---------------------------------
(* C08: when a method may stand for another one (override, interface), and what its parameters hold when it is called.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)
\* ------------------------------------------------------------------ signatures
\* types of the universe: n name, c category, p parent classes, e element
Types == <<"byte","short","int","long","float","double","string","mutable string","object","SgA","SgB","SgI","SgJ","Int","int[]","byte[]","SgA[]","SgB[]","SgI[]","object[]","string[]","int[][]","SgA[][]","SgI[][]","Complex_2d","Complex_2d[]","int*","Complex_2d*">>
Num == {"byte","short","int","long","float","double"}
Obj(t) == t \notin Num \cup {"Complex_2d","int*","Complex_2d*","void"}
ObjArr(t) == t \in {"SgA[]","SgB[]","SgI[]","object[]","string[]","int[][]","SgA[][]","SgI[][]"}
\* to = from without a data conversion, interfaces matched exactly
Fits(to, from) ==
  \/ to = from
  \/ to = "object" /\ Obj(from)
  \/ to = "object[]" /\ ObjArr(from)
  \/ <<to, from>> \in {<<"SgA","SgB">>, <<"SgA[]","SgB[]">>, <<"string","mutable string">>}
TypePairs == {<<Types[i], Types[j]>> : i, j \in 1..Len(Types)}
Arity == {<<r, o>> \in (0..2) \X (0..2) : TRUE}
ArityOk(dr, do, sr, so) == dr + do >= sr
\* the method sr/so called through the declaration dr/do with n arguments
Outcome(dr, do, sr, so, n) == IF n < sr THEN "X"
   ELSE [i \in 1..(sr + so) |-> IF i <= n THEN 10 + i ELSE 100 + i]
\* ------------------------------------------------------------------ transport
\* a row: ps = parameters [w: slots, opt, def: the value it takes if omitted], as = values given; the callee's view
RECURSIVE Slots(_, _)
Slots(ps, i) == IF i = 0 THEN 0 ELSE Slots(ps, i - 1) + ps[i].w          \* slots before parameter i+1
Push(r) == [k \in 0..(Slots(r.ps, Len(r.as)) - 1) |->                    \* slot k holds component k - offset of the argument it belongs to
   LET i == CHOOSE j \in 1..Len(r.as) : Slots(r.ps, j - 1) <= k /\ k < Slots(r.ps, j) IN <<r.as[i], k - Slots(r.ps, i - 1)>>]
ArgsWidth(r) == Slots(r.ps, Len(r.as)) + r.inv
View(r) == [i \in 1..Len(r.ps) |-> IF i <= Len(r.as) THEN LET st == Push(r) IN st[Slots(r.ps, i - 1)][1] ELSE r.ps[i].def]
RowOut(r) == [view |-> View(r), aw |-> ArgsWidth(r)]
VARIABLE i
Init == i = 0
Next == /\ i <= Len(Rows) /\ i' = i + 1
        /\ IF i = 0 THEN JsonSerialize("sigs.json",
             [types |-> SetToSeq({<<p[1], p[2], Fits(p[1], p[2])>> : p \in TypePairs}),
              arity |-> SetToSeq({<<a[1], a[2], b[1], b[2], ArityOk(a[1], a[2], b[1], b[2]), [n \in (a[1])..(a[1] + a[2]) |-> Outcome(a[1], a[2], b[1], b[2], n)]>> : a \in Arity, b \in Arity})])
           ELSE JsonSerialize("row_" \o ToString(i) \o ".json", RowOut(Rows[i]))
\* ---- laws: the order is reflexive and transitive; what is pushed is what is seen
Order == /\ \A t \in Range(Types) : Fits(t, t)
         /\ \A a, b, c \in Range(Types) : Fits(a, b) /\ Fits(b, c) => Fits(a, c)
Seen == i \in 1..Len(Rows) => LET r == Rows[i] IN \A j \in 1..Len(r.as) : View(r)[j] = r.as[j]
===============================================================================
