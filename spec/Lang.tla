-------------------------------- MODULE Lang --------------------------------
(* C03, C04 (and C11, C01 by reuse): operational semantics of SPVM statements, expressions, calls and        *)
(* exceptions.  A configuration is [fr: locals of the running frame, gd: guard objects of the open blocks,   *)
(* cv: class variables, hp: int arrays, out: observations, at: $@, eid: eval_error_id, fuel, depth].         *)
(* $@ belongs to the runtime stack and is shared by all running methods; eval_error_id belongs to one        *)
(* invocation of a method.  Executing a statement yields a configuration and a completion: "n" normal,       *)
(* "next", "last", "break", "ret" (with st.rv), "exc" (with st.xm message so far, st.xe error class).        *)
(* The TLA+ machine runs one top-level statement of the program's main method per step.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS ProgFile, NoVal
Progs == JsonDeserialize(ProgFile)
None == "none"
NL == "\n"

Init0 == [fr |-> <<>>, gd |-> <<>>, cv |-> <<>>, hp |-> <<>>, out |-> <<>>, at |-> None, eid |-> "0",
          rv |-> 0, xm |-> None, xe |-> None, fuel |-> 4000, depth |-> 1, big |-> FALSE, meth |-> ""]

Log(st, s) == [st EXCEPT !.out = Append(@, s)]
Get(fr, n) == LET i == CHOOSE i \in 1..Len(fr) : fr[i][1] = n IN fr[i][2]
Has(fr, n) == \E i \in 1..Len(fr) : fr[i][1] = n
Put(fr, n, v) == IF Has(fr, n) THEN [i \in 1..Len(fr) |-> IF fr[i][1] = n THEN <<n, v>> ELSE fr[i]]
                 ELSE Append(fr, <<n, v>>)
Method(P, n) == LET i == CHOOSE i \in 1..Len(P.methods) : P.methods[i].name = n IN P.methods[i]

\* integer operations of small values; anything large marks the program as out of the model's range
Lim == 100000
Fix(st, v) == IF v > Lim \/ v < -Lim THEN [st EXCEPT !.big = TRUE] ELSE st
Clip(v) == IF v > Lim \/ v < -Lim THEN 0 ELSE v
AbsI(x) == IF x < 0 THEN -x ELSE x
TDiv(a,b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
FMod(a,b) == LET r == a - b * TDiv(a,b) IN IF r # 0 /\ (a < 0) # (b < 0) THEN r + b ELSE r
B(c) == IF c THEN 1 ELSE 0

\* exception raised in the running method at a line: one stack-trace line for this frame
Trace(P, st, line) == LET m == Method(P, st.meth) IN
                      NL \o "  " \o m.cls \o "->" \o m.name \o " at " \o m.file \o " line " \o ToString(line)
Raise(P, st, msg, cls, line) == [st EXCEPT !.xm = msg \o Trace(P, st, line), !.xe = cls]
Propagate(P, st, line) == [st EXCEPT !.xm = @ \o Trace(P, st, line)]

\* evaluation results
R(st, v) == [st |-> st, v |-> v, x |-> FALSE]
X(st)    == [st |-> st, v |-> 0, x |-> TRUE]

\* leaving a block destroys the guards declared in it: their destructors run now, whatever the reason for leaving.
\* A destructor that throws, or that uses eval inside, changes nothing of the running program.
RECURSIVE Drop(_,_)
Drop(st, n) == IF Len(st.gd) <= n THEN st
               ELSE LET g == st.gd[Len(st.gd)] IN
                    Drop(Log([st EXCEPT !.gd = SubSeq(@, 1, Len(@)-1)], "D " \o g), n)

RECURSIVE Ev(_,_,_)
RECURSIVE EvSeq(_,_,_,_)
RECURSIVE Ex(_,_,_)
RECURSIVE Block(_,_,_)
RECURSIVE Stmts(_,_,_,_)
RECURSIVE Call(_,_,_,_,_)
RECURSIVE Loop(_,_,_,_,_)
RECURSIVE Each(_,_,_,_,_,_)
RECURSIVE IfChain(_,_,_,_,_)

\* left to right, each once
EvSeq(P, es, st, acc) ==
  IF es = <<>> THEN [st |-> st, v |-> acc, x |-> FALSE]
  ELSE LET r == Ev(P, es[1], st) IN
       IF r.x THEN r ELSE EvSeq(P, Tail(es), r.st, Append(acc, r.v))

BinOp(P, op, a, b, st, line) ==
  IF op \in {"/","%"} /\ b = 0 THEN X(Raise(P, st, "<builtin>", "Error", line))
  ELSE LET v == CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
                  [] op = "/" -> TDiv(a,b) [] op = "%" -> FMod(a,b)
                  [] op = "==" -> B(a = b) [] op = "!=" -> B(a # b) [] op = "<" -> B(a < b)
                  [] op = "<=" -> B(a <= b) [] op = ">" -> B(a > b) [] op = ">=" -> B(a >= b)
                  [] op = "<=>" -> (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
       IN R(Fix(st, v), Clip(v))

\* places: <<"v",name>> local, <<"cv",name>> class variable, <<"el",arr,idx,line>> element
Load(P, pl, i, st) == CASE pl[1] = "v" -> Get(st.fr, pl[2]) [] pl[1] = "cv" -> Get(st.cv, pl[2])
                        [] pl[1] = "el" -> st.hp[Get(st.fr, pl[2])][i+1]
Store(P, pl, i, v, st) == CASE pl[1] = "v" -> [st EXCEPT !.fr = Put(@, pl[2], v)]
                            [] pl[1] = "cv" -> [st EXCEPT !.cv = Put(@, pl[2], v)]
                            [] pl[1] = "el" -> [st EXCEPT !.hp[Get(st.fr, pl[2])] = [@ EXCEPT ![i+1] = v]]
InB(pl, i, st) == pl[1] # "el" \/ (i >= 0 /\ i < Len(st.hp[Get(st.fr, pl[2])]))
\* index of an element place is evaluated (0 for the other places)
Idx(P, pl, st) == IF pl[1] = "el" THEN Ev(P, pl[3], st) ELSE R(st, 0)
LineOf(pl) == IF pl[1] = "el" THEN pl[4] ELSE 0

Ev(P, e, st) ==
  LET k == e[1] IN
  CASE k = "c" -> R(st, e[2])
    [] k \in {"v","cv"} -> R(st, Load(P, e, 0, st))
    [] k = "t" -> LET r == Ev(P, e[3], st) IN IF r.x THEN r ELSE R(Log(r.st, "t " \o e[2] \o " " \o ToString(r.v)), r.v)
    [] k = "b" -> LET l == Ev(P, e[3], st) IN
                  IF l.x THEN l ELSE LET r == Ev(P, e[4], l.st) IN
                  IF r.x THEN r ELSE BinOp(P, e[2], l.v, r.v, r.st, e[5])
    [] k = "neg" -> LET r == Ev(P, e[2], st) IN IF r.x THEN r ELSE R(r.st, -r.v)
    [] k = "not" -> LET r == Ev(P, e[2], st) IN IF r.x THEN r ELSE R(r.st, B(r.v = 0))
    [] k = "and" -> LET l == Ev(P, e[2], st) IN IF l.x \/ l.v = 0 THEN [l EXCEPT !.v = 0] ELSE Ev(P, e[3], l.st)
    [] k = "or"  -> LET l == Ev(P, e[2], st) IN IF l.x \/ l.v # 0 THEN l ELSE Ev(P, e[3], l.st)
    [] k = "seq" -> LET r == EvSeq(P, e[2], st, <<>>) IN IF r.x THEN r ELSE R(r.st, r.v[Len(r.v)])
    [] k = "asg" -> \* <<"asg", place, expr>>: right operand first, then the place
                   LET i == Idx(P, e[2], st) IN IF i.x THEN i ELSE
                   LET r == Ev(P, e[3], i.st) IN IF r.x THEN r
                   ELSE IF ~InB(e[2], i.v, r.st) THEN X(Raise(P, r.st, "<builtin>", "Error", LineOf(e[2])))
                   ELSE R(Store(P, e[2], i.v, r.v, r.st), r.v)
    [] k = "op=" -> \* <<"op=", op, place, expr, line>>
                   LET i == Idx(P, e[3], st) IN IF i.x THEN i
                   ELSE IF ~InB(e[3], i.v, i.st) THEN
                        (LET r == Ev(P, e[4], i.st) IN IF r.x THEN r ELSE X(Raise(P, r.st, "<builtin>", "Error", e[5])))
                   ELSE LET r == Ev(P, e[4], i.st) IN IF r.x THEN r
                   ELSE LET q == BinOp(P, e[2], Load(P, e[3], i.v, r.st), r.v, r.st, e[5]) IN
                        IF q.x THEN q ELSE R(Store(P, e[3], i.v, q.v, q.st), q.v)
    [] k = "inc" -> \* <<"inc", "pre"/"post", delta, place>>
                   LET i == Idx(P, e[4], st) IN IF i.x THEN i
                   ELSE IF ~InB(e[4], i.v, i.st) THEN X(Raise(P, i.st, "<builtin>", "Error", LineOf(e[4])))
                   ELSE LET old == Load(P, e[4], i.v, i.st)
                            new == old + e[3]
                        IN R(Store(P, e[4], i.v, new, i.st), IF e[2] = "pre" THEN new ELSE old)
    [] k = "el" -> LET i == Ev(P, e[3], st) IN IF i.x THEN i
                   ELSE IF ~InB(e, i.v, i.st) THEN X(Raise(P, i.st, "<builtin>", "Error", e[4]))
                   ELSE R(i.st, Load(P, e, i.v, i.st))
    [] k = "len" -> R(st, Len(st.hp[Get(st.fr, e[2])]))
    [] k = "arr" -> LET r == EvSeq(P, e[2], st, <<>>) IN IF r.x THEN r
                    ELSE R([r.st EXCEPT !.hp = Append(@, r.v)], Len(r.st.hp) + 1)
    [] k = "call" -> LET r == EvSeq(P, e[3], st, <<>>) IN IF r.x THEN r ELSE Call(P, e[2], r.v, r.st, e[4])
    [] k = "erris" -> R(st, B(st.eid = e[2]))
    [] k = "err?" -> R(st, B(st.at # None))

Call(P, mn, args, st, line) ==
  LET m == Method(P, mn)
      s1 == [st EXCEPT !.fr = [i \in 1..Len(args) |-> <<m.params[i], args[i]>>], !.gd = <<>>, !.meth = mn, !.eid = "0",
                       !.depth = @ + 1, !.rv = 0, !.fuel = @ - 1]
      r == Block(P, m.body, s1)
      s2 == [r.st EXCEPT !.fr = st.fr, !.gd = st.gd, !.meth = st.meth, !.depth = st.depth, !.eid = st.eid]
  IN IF st.fuel <= 0 THEN R([st EXCEPT !.big = TRUE], 0)
     ELSE IF r.c = "exc" THEN X(Propagate(P, s2, line))
     ELSE R(s2, r.st.rv)

C(st, c) == [st |-> st, c |-> c]
Block(P, ss, st) == LET r == Stmts(P, ss, 1, st) IN C(Drop(r.st, Len(st.gd)), r.c)
Stmts(P, ss, i, st) == IF i > Len(ss) \/ st.big THEN C(st, "n")
                       ELSE LET r == Ex(P, ss[i], st) IN IF r.c # "n" THEN r ELSE Stmts(P, ss, i+1, r.st)

IfChain(P, cs, i, els, st) ==
  IF i > Len(cs) THEN Block(P, els, st)
  ELSE LET r == Ev(P, cs[i][1], st) IN
       IF r.x THEN C(r.st, "exc")
       ELSE IF r.v # 0 THEN Block(P, cs[i][2], r.st) ELSE IfChain(P, cs, i+1, els, r.st)

\* while with an increment part; "next" continues with the increment
Loop(P, cond, inc, body, st) ==
  IF st.fuel <= 0 THEN C([st EXCEPT !.big = TRUE], "n") ELSE
  LET r == Ev(P, cond, [st EXCEPT !.fuel = @ - 1]) IN
  IF r.x THEN C(r.st, "exc") ELSE IF r.v = 0 THEN C(r.st, "n") ELSE
  LET b == Block(P, body, r.st) IN
  IF b.c \in {"n","next"} /\ ~b.st.big
  THEN LET q == EvSeq(P, inc, b.st, <<>>) IN IF q.x THEN C(q.st, "exc") ELSE Loop(P, cond, inc, body, q.st)
  ELSE IF b.c = "last" THEN C(b.st, "n") ELSE b

Each(P, name, arr, i, body, st) ==
  IF i > Len(st.hp[Get(st.fr, arr)]) THEN C(st, "n") ELSE
  LET b == Block(P, body, [st EXCEPT !.fr = Put(@, name, st.hp[Get(st.fr, arr)][i]), !.fuel = @ - 1]) IN
  IF b.c \in {"n","next"} THEN (IF b.st.big THEN b ELSE Each(P, name, arr, i+1, body, b.st))
  ELSE IF b.c = "last" THEN C(b.st, "n") ELSE b

ShowErr(st) == Log(Log(st, "@" \o (IF st.at = None THEN "undef" ELSE "[" \o st.at \o "]")), "eid " \o st.eid)

Ex(P, s, st) ==
  LET k == s[1] IN
  CASE k = "say" -> LET r == Ev(P, s[3], st) IN
                    IF r.x THEN C(r.st, "exc") ELSE C(Log(r.st, "s " \o s[2] \o " " \o ToString(r.v)), "n")
    [] k = "my" -> LET r == Ev(P, s[3], st) IN IF r.x THEN C(r.st, "exc") ELSE C([r.st EXCEPT !.fr = Put(@, s[2], r.v)], "n")
    [] k = "x" -> LET r == Ev(P, s[2], st) IN IF r.x THEN C(r.st, "exc") ELSE C(r.st, "n")
    [] k = "if" -> IfChain(P, s[2], 1, s[3], st)
    [] k = "unless" -> LET r == Ev(P, s[2], st) IN IF r.x THEN C(r.st, "exc") ELSE IF r.v = 0 THEN Block(P, s[3], r.st) ELSE C(r.st, "n")
    [] k = "while" -> Loop(P, s[2], <<>>, s[3], st)
    [] k = "for" -> LET r == EvSeq(P, s[3], [st EXCEPT !.fr = Put(@, s[2], 0)], <<>>) IN
                    IF r.x THEN C(r.st, "exc") ELSE Loop(P, s[4], s[5], s[6], r.st)
    [] k = "each" -> Each(P, s[2], s[3], 1, s[4], st)
    [] k = "sw" -> \* <<"sw", expr, <<<<vals>, block>, ...>, default, hasdefault>>
                   LET r == Ev(P, s[2], st) IN IF r.x THEN C(r.st, "exc") ELSE
                   LET hit == {i \in 1..Len(s[3]) : \E j \in 1..Len(s[3][i][1]) : s[3][i][1][j] = r.v}
                       b == IF hit # {} THEN Block(P, s[3][CHOOSE i \in hit : TRUE][2], r.st) ELSE Block(P, s[4], r.st)
                   IN IF b.c = "break" THEN C(b.st, "n") ELSE b
    [] k \in {"last","next","break"} -> C(st, k)
    [] k = "ret" -> IF Len(s) = 1 THEN C(st, "ret") ELSE
                    LET r == Ev(P, s[2], st) IN IF r.x THEN C(r.st, "exc") ELSE C([r.st EXCEPT !.rv = r.v], "ret")
    [] k = "die" -> C(Raise(P, st, s[2], s[3], s[4]), "exc")      \* <<"die", message, class, line>>
    [] k = "redie" -> IF st.at = None THEN C(Raise(P, st, "Error", "Error", s[2]), "exc") ELSE C(Raise(P, st, st.at, "Error", s[2]), "exc")
    [] k = "eval" -> LET b == Block(P, s[2], [st EXCEPT !.at = None, !.eid = "0"]) IN
                     IF b.c = "exc" THEN C([b.st EXCEPT !.at = b.st.xm, !.eid = b.st.xe], "n") ELSE b
    [] k = "blk" -> Block(P, s[2], st)
    [] k = "guard" -> C([st EXCEPT !.gd = Append(@, s[2])], "n")
    [] k = "show" -> C(ShowErr(st), "n")
    [] k = "setat" -> C([st EXCEPT !.at = s[2]], "n")

VARIABLES p, pc, conf, halt
vars == <<p, pc, conf, halt>>
Start(P) == LET m == Method(P, "main") IN
            [Init0 EXCEPT !.cv = [i \in 1..Len(P.cvs) |-> <<P.cvs[i], 0>>], !.meth = "main"]
Init == p \in 1..Len(Progs) /\ pc = 1 /\ conf = Start(Progs[p]) /\ halt = "run"
MainBody == Method(Progs[p], "main").body
StepStmt == /\ halt = "run" /\ pc <= Len(MainBody)
            /\ LET r == Ex(Progs[p], MainBody[pc], conf) IN
               /\ conf' = IF r.c = "n" THEN r.st ELSE Drop(r.st, 0)
               /\ halt' = IF r.st.big THEN "big" ELSE IF r.c = "n" THEN "run" ELSE IF r.c = "exc" THEN "exc" ELSE "end"
            /\ pc' = pc + 1 /\ UNCHANGED p
Finish == /\ halt = "run" /\ pc > Len(MainBody)
          /\ conf' = Drop(conf, 0) /\ halt' = "end" /\ UNCHANGED <<p, pc>>
Report == /\ halt \in {"end","exc","big"}
          /\ JsonSerialize("out_" \o ToString(p) \o ".json",
                [out |-> conf.out, halt |-> halt, xm |-> conf.xm, at |-> conf.at])
          /\ halt' = "done" /\ UNCHANGED <<p, pc, conf>>
Next == StepStmt \/ Finish \/ Report
Spec == Init /\ [][Next]_vars
\* the observable log only grows; guards never outlive their frame
OutGrows == [][Len(conf'.out) >= Len(conf.out)]_vars
Balanced == conf.depth = 1 /\ conf.meth = "main" /\ (halt \in {"end","exc","done"} => conf.gd = <<>>)
=============================================================================
