-------------------------------- MODULE Mutex --------------------------------
(* C23: Sync::Mutex.  lock excludes everyone else between its return and the call of unlock; reader_lock excludes lock but not other   *)
(* readers; mutexes are independent of each other; an operation on shared data that works under the mutex is therefore one step.        *)
(* Mode "rows": recorded histories are followed event by event (who holds what, what the operations return).                            *)
(* Mode "model": the operations in their small steps; with Excl they are atomic and nobody waits for ever, without it they are not.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, RowFile, Excl
Data == JsonDeserialize(RowFile)
Rows == Data.rows
\* ------------------------------------------------- what the operations do, as one step: x, y under M; z under N; q a queue, h a map
O0(T) == [x |-> 0, y |-> 0, z |-> 0, q |-> <<>>, h |-> <<0, 0>>, w |-> <<0, 0>>, rd |-> <<{}, {}>>, pe |-> [t \in T |-> <<>>], res |-> [t \in T |-> 0], ov |-> {}]
Apply(s, o, a) ==
   CASE o = 0 -> <<[s EXCEPT !.x = @ + a, !.y = @ + a], s.x + a>>
     [] o = 1 -> <<s, s.x>>
     [] o = 2 -> <<[s EXCEPT !.q = Append(@, a)], Len(s.q) + 1>>
     [] o = 3 -> IF s.q = <<>> THEN <<s, 0>> ELSE <<[s EXCEPT !.q = Tail(@)], Head(s.q)>>
     [] o = 4 -> <<s, IF Len(s.q) > a THEN s.q[a + 1] ELSE 0>>
     [] o = 5 -> <<[s EXCEPT !.h[(a % 2) + 1] = a], 0>>
     [] o = 6 -> <<s, s.h[a + 1]>>
     [] o = 7 -> <<[s EXCEPT !.q = Append(@, a)], 1>>
     [] o = 8 -> <<[s EXCEPT !.z = @ + a], s.z + a>>
     [] o = 9 -> <<[s EXCEPT !.x = s.z, !.y = s.z, !.z = s.x], s.x>>
     [] OTHER -> <<s, 0>>
Last(o) == IF o \in {8, 9} THEN 2 ELSE 1       \* the mutex whose release ends the operation's work
\* one event; "" or what is wrong
Free(s, m, t) == s.w[m] = 0 /\ s.rd[m] = {}
Step(s, e) ==
   CASE e.e = "I" -> <<[s EXCEPT !.pe[e.t] = <<e.o, e.a>>], "">>
     [] e.e = "R" -> <<[s EXCEPT !.pe[e.t] = <<>>], IF e.r = s.res[e.t] THEN "" ELSE "result">>
     [] e.e = "L" ->
        LET m == e.k \div 10 a == e.k % 10 t == e.t IN
        CASE a = 0 -> <<[s EXCEPT !.w[m] = t, !.ov = @ \cup (IF s.w[3 - m] \notin {0, t} THEN {"independent"} ELSE {})], IF Free(s, m, t) THEN "" ELSE "lock">>
          [] a = 2 -> <<[s EXCEPT !.rd[m] = @ \cup {t}, !.ov = @ \cup (IF s.rd[m] # {} THEN {"readers"} ELSE {})], IF s.w[m] = 0 THEN "" ELSE "reader_lock">>
          [] OTHER -> LET s1 == IF a = 1 THEN [s EXCEPT !.w[m] = 0] ELSE [s EXCEPT !.rd[m] = @ \ {t}]
                          r == Apply(s1, s.pe[t][1], s.pe[t][2])
                      IN <<IF Last(s.pe[t][1]) = m THEN [r[1] EXCEPT !.res[t] = r[2]] ELSE s1, "">>
RECURSIVE Follow(_,_,_)
Follow(s, ev, j) == IF j > Len(ev) THEN [bad |-> 0, why |-> "", ov |-> s.ov] ELSE LET n == Step(s, ev[j]) IN IF n[2] # "" THEN [bad |-> j, why |-> n[2], ov |-> s.ov] ELSE Follow(IF ev[j].e = "I" THEN [n[1] EXCEPT !.res[ev[j].t] = 0] ELSE n[1], ev, j + 1)
\* ------------------------------------------------- the small steps
VARIABLES n, x, y, w, rd, pc, l, ob
vars == <<n, x, y, w, rd, pc, l, ob>>
Ts == 1 .. Data.threads
Kinds == {"inc", "get"}
Init0 == n = 0 /\ x = 0 /\ y = 0 /\ w = 0 /\ rd = {} /\ pc \in [Ts -> Kinds] /\ l = [t \in Ts |-> 0] /\ ob = [t \in Ts |-> 0]
P(t, p) == pc' = [pc EXCEPT ![t] = p]
U == UNCHANGED <<n>>
Incs == {t \in Ts : ob[t] = 1}
Next0 == \E t \in Ts : U /\
   \/ pc[t] = "inc" /\ (Excl => w = 0 /\ rd = {}) /\ w' = t /\ P(t, "i1") /\ UNCHANGED <<x, y, rd, l, ob>>
   \/ pc[t] = "i1" /\ l' = [l EXCEPT ![t] = x] /\ P(t, "i2") /\ UNCHANGED <<x, y, w, rd, ob>>
   \/ pc[t] = "i2" /\ x' = l[t] + 1 /\ P(t, "i3") /\ UNCHANGED <<y, w, rd, l, ob>>
   \/ pc[t] = "i3" /\ y' = y + 1 /\ P(t, "i4") /\ UNCHANGED <<x, w, rd, l, ob>>
   \/ pc[t] = "i4" /\ w' = 0 /\ P(t, "done") /\ ob' = [ob EXCEPT ![t] = 1] /\ UNCHANGED <<x, y, rd, l>>
   \/ pc[t] = "get" /\ (Excl => w = 0) /\ rd' = rd \cup {t} /\ P(t, "g1") /\ UNCHANGED <<x, y, w, l, ob>>
   \/ pc[t] = "g1" /\ l' = [l EXCEPT ![t] = x] /\ P(t, "g2") /\ UNCHANGED <<x, y, w, rd, ob>>
   \/ pc[t] = "g2" /\ ob' = [ob EXCEPT ![t] = IF y = l[t] THEN 0 ELSE -1] /\ P(t, "g3") /\ UNCHANGED <<x, y, w, rd, l>>
   \/ pc[t] = "g3" /\ rd' = rd \ {t} /\ P(t, "done") /\ UNCHANGED <<x, y, w, l, ob>>
   \/ (\A u \in Ts : pc[u] = "done") /\ UNCHANGED <<x, y, w, rd, pc, l, ob>>
RowInit == n = 0 /\ x = 0 /\ y = 0 /\ w = 0 /\ rd = {} /\ pc = 0 /\ l = 0 /\ ob = 0
RowNext == n < Len(Rows) /\ n' = n + 1 /\ UNCHANGED <<x, y, w, rd, pc, l, ob>> /\ JsonSerialize("out_" \o ToString(n + 1) \o ".json", Follow(O0(1 .. 8), Rows[n + 1], 1))
Init == IF Mode = "rows" THEN RowInit ELSE Init0
Next == IF Mode = "rows" THEN RowNext ELSE Next0
Spec == Init /\ [][Next]_vars /\ (Mode = "model" => WF_vars(Next))
Atomic == Mode = "model" => /\ \A t \in Ts : ob[t] # -1
                            /\ (\A t \in Ts : pc[t] = "done") => x = Cardinality(Incs) /\ y = x
                            /\ (w # 0 => rd = {})
Done == <>(Mode = "model" => \A t \in Ts : pc[t] = "done")
==============================================================================
