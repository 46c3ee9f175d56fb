-------------------------------- MODULE Expr --------------------------------
(* C25: operators.  A row is an expression as a sequence of tokens; the tree is the one the table of precedences in SyntaxParsing.pm gives,   *)
(* by shifting and reducing: an operator to the left of an operand and one to its right compete for it, and the higher one takes it; of   *)
(* equal ones the left one takes it if they are left-associative, the right one if right-associative, and none if they do not associate.   *)
(* The result is the same expression with every operation in parentheses, or an error.                                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS RowFile
Rows == JsonDeserialize(RowFile)
\* tokens: [k |-> "x" (operand) | "pre" | "bin" | "post" | "(" | ")", s |-> text, p |-> level, e |-> text after the operand]
Assoc(p) == IF p \in {1, 11} THEN "right" ELSE IF p \in {6, 7, 12} THEN "none" ELSE "left"
\* the stack: operands [k |-> "t", s |-> text, lv |-> may stand alone] and pending tokens
Top(st) == st[Len(st)]
Pop(st, n) == SubSeq(st, 1, Len(st) - n)
\* an operand as it is written inside of an operation
In(t) == IF t.lv THEN t.s ELSE "(" \o t.s \o ")"
Tree(s, lv) == [k |-> "t", s |-> s, lv |-> lv]
\* one reduction at the top of the stack
Reduce(st) ==
   LET t == Top(st) o == st[Len(st) - 1]
   IN IF o.k = "pre" THEN Append(Pop(st, 2), Tree(o.s \o " " \o In(t), FALSE))
      ELSE Append(Pop(st, 3), Tree(In(st[Len(st) - 2]) \o " " \o o.s \o " " \o In(t), FALSE))
Pending(st) == Len(st) >= 2 /\ st[Len(st) - 1].k \in {"pre", "bin"}
RECURSIVE Flush(_)
Flush(st) == IF Pending(st) THEN Flush(Reduce(st)) ELSE st
Fail == <<>>
\* the token's operator wants the operand at the top of the stack
RECURSIVE Want(_,_)
Want(st, tok) ==
   IF ~Pending(st) THEN st
   ELSE LET o == st[Len(st) - 1]
        IN IF o.p > tok.p THEN Want(Reduce(st), tok)
           ELSE IF o.p < tok.p THEN st
           ELSE IF Assoc(o.p) = "left" THEN Want(Reduce(st), tok)
           ELSE IF Assoc(o.p) = "right" THEN st
           ELSE Fail
RECURSIVE Parse(_,_,_)
Parse(ts, i, st) ==
   IF i > Len(ts) THEN Flush(st)
   ELSE LET tok == ts[i] IN
      CASE tok.k = "x" -> Parse(ts, i + 1, Append(st, Tree(tok.s, tok.e # "op")))
        [] tok.k \in {"pre", "("} -> Parse(ts, i + 1, Append(st, tok))
        [] tok.k = ")" -> LET f == Flush(st) t == Top(f) IN Parse(ts, i + 1, Append(Pop(f, 2), Tree(IF t.lv THEN t.s ELSE "(" \o t.s \o ")", TRUE)))
        [] tok.k = "bin" -> LET w == Want(st, tok) IN IF w = Fail THEN Fail ELSE Parse(ts, i + 1, Append(w, tok))
        [] tok.k = "post" -> LET w == Want(st, tok) IN IF w = Fail THEN Fail ELSE Parse(ts, i + 1, Append(Pop(w, 1), Tree(In(Top(w)) \o tok.s, tok.p = 13)))
Full(ts) == LET st == Parse(ts, 1, <<>>) IN IF st = Fail THEN [ok |-> FALSE, s |-> ""] ELSE [ok |-> TRUE, s |-> Top(st).s]
\* ---------------------------------------------------------------- laws
\* one operand remains, and an operand and its operators appear in the order of the text
Law == \A i \in DOMAIN Rows : LET st == Parse(Rows[i].ts, 1, <<>>) IN st = Fail \/ (Len(st) = 1 /\ st[1].k = "t")
VARIABLE row
Init == row = 0
Next == row < Len(Rows) /\ row' = row + 1 /\ JsonSerialize("out_" \o ToString(row + 1) \o ".json", Full(Rows[row + 1].ts))
Spec == Init /\ [][Next]_row
=============================================================================
