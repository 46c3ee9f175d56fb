-------------------------------- MODULE Build --------------------------------
(* C24: building again after changes.                                                                                                   *)
(* Sources have a version and a time of change; outputs (generated C sources, object files, shared libraries) remember the versions they *)
(* were made from.  A build makes an output again when one of the files it depends on is newer (or when what it would generate differs).  *)
(* Law: after a build that succeeds, the program behaves as after a build from nothing.  Deps is what the documentation lists             *)
(* (NativeClass.pm, Dependency Resolution); a missing dependency breaks the law.                                                          *)
(* Mode "rows": histories of edits, failures, lost files and runs; the expected outcome of every run.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, RowFile, Drop
Data == JsonDeserialize(RowFile)
Rows == Data.rows
\* ---------------------------------------------------------------- rows
\* version of every source, the broken ones; a run shows all the versions, or fails if one of the sources needed is broken
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Runs(_,_,_,_,_)
\* v: versions, b: broken sources, fresh: nothing was changed since the last successful run
Runs(v, b, fresh, ops, j) ==
   IF j > Len(ops) THEN <<>>
   ELSE LET o == ops[j] IN
   CASE o.k = "edit" -> Runs([v EXCEPT ![o.s] = o.v], b \ {o.s}, FALSE, ops, j + 1)
     [] o.k = "break" -> Runs(v, b \cup {o.s}, FALSE, ops, j + 1)
     [] o.k = "touch" -> Runs(v, b, FALSE, ops, j + 1)
     [] o.k = "lose" -> Runs(v, b, FALSE, ops, j + 1)
     [] o.k = "upgrade" -> Runs(v, b, FALSE, ops, j + 1)
     [] o.k = "run" -> <<[ok |-> b = {}, show |-> v, built |-> ~fresh, all |-> j > 1 /\ ops[j - 1].k = "upgrade"]>> \o Runs(v, b, b = {}, ops, j + 1)
Expect(r) == Runs(r.v, {}, FALSE, r.ops, 1)
\* ---------------------------------------------------------------- the protocol: sources 1..4; objects 1, 2; one library
VARIABLES n, clock, sv, st, ov, ot, lv, lt
vars == <<n, clock, sv, st, ov, ot, lv, lt>>
Srcs == 1 .. 4          \* 1: source of object 1, 2: source of object 2, 3: a header, 4: the config file
Deps(o) == ({o, 3, 4} \ (IF o = 2 THEN Drop ELSE {}))
Init0 == n = 0 /\ clock = 1 /\ sv = [s \in Srcs |-> 0] /\ st = [s \in Srcs |-> 0] /\ ov = [o \in 1 .. 2 |-> <<>>] /\ ot = [o \in 1 .. 2 |-> -1] /\ lv = <<>> /\ lt = -1
Cur(o) == [s \in {o, 3, 4} |-> sv[s]]
Newer(o) == ot[o] < 0 \/ \E s \in Deps(o) : st[s] > ot[o]
Tick == clock' = clock + 1 /\ n' = 0
Edit == \E s \in Srcs : sv[s] < 2 /\ sv' = [sv EXCEPT ![s] = @ + 1] /\ st' = [st EXCEPT ![s] = clock] /\ Tick /\ UNCHANGED <<ov, ot, lv, lt>>
Lose == /\ (\E o \in 1 .. 2 : ot' = [ot EXCEPT ![o] = -1] /\ ov' = [ov EXCEPT ![o] = <<>>] /\ UNCHANGED <<lv, lt>>) \/ (lt' = -1 /\ lv' = <<>> /\ UNCHANGED <<ov, ot>>)
        /\ Tick /\ UNCHANGED <<sv, st>>
\* a build that stops after some objects (stop < 3) or goes through
Build == \E stop \in 1 .. 3 :
   LET b == {o \in 1 .. 2 : o < stop /\ Newer(o)}
       ov1 == [o \in 1 .. 2 |-> IF o \in b THEN Cur(o) ELSE ov[o]]
       ot1 == [o \in 1 .. 2 |-> IF o \in b THEN clock ELSE ot[o]]
       link == stop = 3 /\ (lt < 0 \/ \E o \in 1 .. 2 : ot1[o] > lt)
   IN ov' = ov1 /\ ot' = ot1 /\ lv' = (IF link THEN ov1 ELSE lv) /\ lt' = (IF link THEN clock ELSE lt) /\ n' = (IF stop = 3 THEN 1 ELSE 0) /\ clock' = clock + 1 /\ UNCHANGED <<sv, st>>
RowInit == n = 0 /\ clock = 0 /\ sv = 0 /\ st = 0 /\ ov = 0 /\ ot = 0 /\ lv = 0 /\ lt = 0
RowNext == n < Len(Rows) /\ n' = n + 1 /\ UNCHANGED <<clock, sv, st, ov, ot, lv, lt>> /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", [runs |-> Expect(Rows[n + 1])])
Init == IF Mode = "rows" THEN RowInit ELSE Init0
Next == IF Mode = "rows" THEN RowNext ELSE clock < Data.steps /\ (Edit \/ Lose \/ Build)
Spec == Init /\ [][Next]_vars
\* n = 1: the last step was a complete build
AsFresh == Mode = "model" /\ n = 1 => lv = [o \in 1 .. 2 |-> Cur(o)]
==============================================================================
