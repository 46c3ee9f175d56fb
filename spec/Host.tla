-------------------------------- MODULE Host --------------------------------
(* C24: a program under its two hosts, the spvm command and the executable spvmcc makes: what it writes to standard output and error and  *)
(* how it ends.  The program is its argument vector: each argument is an instruction (first byte) with a text.                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS RowFile
Data == JsonDeserialize(RowFile)
Rows == Data.rows         \* a row: sequence of arguments, each a sequence of bytes
Dec(k) == Data.dec[k + 1]         \* the decimal digits of k, as bytes
NL == <<10>>
T == Data.text                    \* the fixed texts of the program, as bytes
\* The text of an exception or a warning with message m of the method "main" of the program at the place of instruction k: message and trace.
Traced(m, k) == m \o T.trace[k]
RECURSIVE Run(_,_,_,_,_,_)
\* a: arguments, i: position, o: standard output, e: standard error, eid: whether an exception was caught, at: the last $@
Run(a, i, o, e, eid, at) ==
   IF i > Len(a) THEN [out |-> o, err |-> e, ok |-> TRUE]
   ELSE IF a[i] = <<>> THEN Run(a, i + 1, o \o T.empty, e, eid, at)
   ELSE LET k == a[i][1] t == Tail(a[i]) IN
   CASE k = 115 (* s *) -> Run(a, i + 1, o \o t \o NL, e, eid, at)
     [] k = 112 (* p *) -> Run(a, i + 1, o \o t, e, eid, at)
     [] k = 119 (* w *) -> Run(a, i + 1, o, e \o Traced(t, "w") \o NL, eid, at)
     [] k = 100 (* d *) -> [out |-> o, err |-> e \o Traced(t, "d"), ok |-> FALSE]
     [] k = 68  (* D *) -> [out |-> o, err |-> e \o Traced(t, "D"), ok |-> FALSE]                  \* with an error class
     [] k = 77  (* M *) -> [out |-> o, err |-> e \o t, ok |-> FALSE]                          \* thrown in another method: the message comes first
     [] k = 101 (* e *) -> Run(a, i + 1, o, e, T.eid, Traced(t, "e"))                              \* caught
     [] k = 69  (* E *) -> Run(a, i + 1, o \o at \o NL \o eid \o NL, e, eid, at)
     [] k = 35  (* # *) -> Run(a, i + 1, o \o Dec(Len(a)) \o NL, e, eid, at)
     [] k = 64  (* @ *) -> Run(a, i + 1, o \o (IF Len(t) < Len(a) THEN a[Len(t) + 1] ELSE T.none) \o NL, e, eid, at)        \* the argument number Len(t)
     [] k = 108 (* l *) -> Run(a, i + 1, o \o Dec(Len(a[i])) \o NL, e, eid, at)
     [] k = 105 (* i *) -> Run(a, i + 1, o \o T.init \o NL, e, eid, at)
     [] k = 110 (* n *) -> Run(a, i + 1, o \o T.native \o t \o NL, e, eid, at)                \* through a native method
     [] k = 99  (* c *) -> Run(a, i + 1, o \o T.pre \o t \o NL, e, eid, at)                   \* through a precompiled method
     [] OTHER -> Run(a, i + 1, o \o T.what, e, eid, at)
VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", Run(Rows[n + 1], 1, <<>>, T.start, T.zero, <<>>))
Spec == Init /\ [][Next]_n
=============================================================================
