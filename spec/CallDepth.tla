------------------------------ MODULE CallDepth ------------------------------
(* C03: the depth of calls is limited; passing the limit is an exception like any other.                    *)
(* One row: a method recurses n levels below main (depth 1); at the bottom it returns or throws; the frame  *)
(* whose remaining level is `k` (if any) calls the next inside an eval block.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS RowFile, Limit, TraceLimit
Rows == JsonDeserialize(RowFile)
VARIABLES i, depth, mode, lines, out
vars == <<i, depth, mode, lines, out>>
Row == Rows[i]
\* the frame at depth d has remaining level Row.n - (d - 2)
Level(d) == Row.n - (d - 2)
Frame(l) == IF depth <= TraceLimit THEN l + 1 ELSE l
Init == i \in 1..Len(Rows) /\ depth = 1 /\ mode = "call" /\ lines = 0 /\ out = <<>>
\* the running frame calls the next one
CallNext == /\ mode = "call" /\ (depth = 1 \/ Level(depth) > 0)
            /\ IF depth = Limit THEN mode' = "exc" /\ lines' = Frame(2) /\ UNCHANGED depth \* message, native place, this frame
               ELSE mode' = "call" /\ depth' = depth + 1 /\ UNCHANGED lines
            /\ UNCHANGED <<i, out>>
Bottom == /\ mode = "call" /\ depth > 1 /\ Level(depth) = 0
          /\ IF Row.end = "ret" THEN mode' = "ret" /\ depth' = depth - 1 /\ UNCHANGED lines
             ELSE mode' = "exc" /\ lines' = Frame(1) /\ UNCHANGED depth
          /\ UNCHANGED <<i, out>>
Catches(d) == d = 1 \/ Level(d) = Row.k
Caught == /\ mode = "exc" /\ Catches(depth) /\ out' = Append(out, <<depth, lines>>) /\ mode' = "after" /\ UNCHANGED <<i, depth, lines>>
Passes == /\ mode = "exc" /\ ~Catches(depth) /\ depth' = depth - 1
          /\ lines' = IF depth - 1 <= TraceLimit THEN lines + 1 ELSE lines
          /\ UNCHANGED <<i, mode, out>>
Returned == /\ mode \in {"ret", "after"} /\ depth > 1 /\ depth' = depth - 1 /\ mode' = "ret" /\ UNCHANGED <<i, lines, out>>
Finish == /\ mode \in {"ret", "after"} /\ depth = 1 /\ mode' = "done" /\ JsonSerialize("out_" \o ToString(i) \o ".json", [out |-> out])
          /\ UNCHANGED <<i, depth, lines, out>>
Next == CallNext \/ Bottom \/ Caught \/ Passes \/ Returned \/ Finish
Spec == Init /\ [][Next]_vars
DepthOk == depth >= 1 /\ depth <= Limit
LinesOk == lines <= TraceLimit + 2
=============================================================================
