-------------------------------- MODULE Lines --------------------------------
(* C25: the layout of a source.  Reading line by line, the compiler is in code, in POD, in a here document, in a string that goes over     *)
(* several lines, or behind __END__; it knows the current file and line, which `#line` and `#file` change.  A row is a source as a          *)
(* sequence of lines with what each of them is when it is read as code; what the others would be does not matter.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS RowFile
Rows == JsonDeserialize(RowFile)
\* a line: [k |-> kind, n |-> number, t |-> text];  kinds: "plain" "at" (an event, n its identity) "line" (#line n) "file" (#file t) "pod" "cut"
\* "here" (a here document of name t, event n) "close" (a line that is just t) "open" (the start of a string, event n) "shut" (its end) "end"
NoEv == <<>>
Start(file) == [m |-> "code", ln |-> 1, file |-> file, name |-> "", id |-> 0, from |-> 0, ev |-> NoEv]
Ev(s, id, ln, from, to) == Append(s.ev, [id |-> id, line |-> ln, file |-> s.file, from |-> from, to |-> to])
\* one line read in state s; i is its position in the source
Read(s, l, i) ==
   LET nx == [s EXCEPT !.ln = @ + 1]
   IN CASE s.m = "end" -> s
        [] s.m = "pod" -> IF l.k = "cut" THEN [nx EXCEPT !.m = "code"] ELSE nx
        [] s.m = "here" -> IF l.k = "close" /\ l.t = s.name THEN [nx EXCEPT !.m = "code", !.ev = Ev(s, s.id, 0, s.from, i - 1)] ELSE nx
        [] s.m = "str" -> IF l.k = "shut" THEN [nx EXCEPT !.m = "code", !.ev = Ev(s, s.id, s.ln, s.from, i)] ELSE nx
        [] s.m = "code" ->
             CASE l.k = "at" -> [nx EXCEPT !.ev = Ev(s, l.n, s.ln, 0, 0)]
               [] l.k = "line" -> [s EXCEPT !.ln = l.n]
               [] l.k = "file" -> [s EXCEPT !.file = l.t]          \* the first line of that file follows
               [] l.k = "pod" -> [nx EXCEPT !.m = "pod"]
               [] l.k = "here" -> [nx EXCEPT !.m = "here", !.name = l.t, !.id = l.n, !.from = i + 1]
               [] l.k = "open" -> [nx EXCEPT !.m = "str", !.id = l.n, !.from = i]
               [] l.k = "end" -> [nx EXCEPT !.m = "end"]
               [] OTHER -> nx
RECURSIVE All(_,_,_)
All(ls, i, s) == IF i > Len(ls) THEN s ELSE All(ls, i + 1, Read(s, ls[i], i))
\* ---------------------------------------------------------------- laws
\* without directives the line is the position in the source; an event is reported once and in the order of the text
Law == \A r \in DOMAIN Rows :
          LET s == All(Rows[r].ls, 1, Start(Rows[r].file))
          IN /\ \A i, j \in DOMAIN s.ev : i # j => s.ev[i].id # s.ev[j].id
             /\ (\A i \in DOMAIN Rows[r].ls : Rows[r].ls[i].k \notin {"line", "file"}) => (s.m # "end" => s.ln = Len(Rows[r].ls) + 1)
VARIABLE row
Init == row = 0
Next == row < Len(Rows) /\ row' = row + 1 /\ JsonSerialize("out_" \o ToString(row + 1) \o ".json", [m |-> All(Rows[row + 1].ls, 1, Start(Rows[row + 1].file)).m, ev |-> All(Rows[row + 1].ls, 1, Start(Rows[row + 1].file)).ev])
Spec == Init /\ [][Next]_row
=============================================================================
