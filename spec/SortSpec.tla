------------------------------ MODULE SortSpec ------------------------------
(* C16: sorting.  A comparator that is a total preorder is described by a key function of the values: the result is the   *)
(* unique stable ordered permutation of the range, everything else stays.  For a comparator that throws or is no preorder *)
(* only the multiset of the range is fixed.  An element is its value; identities are told apart by position.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT RowFile
Rows == JsonDeserialize(RowFile)       \* [a: values, i, l: offset and length, key, tab]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Key(r, x) == CASE r.key = "asc" -> x [] r.key = "desc" -> 0 - x [] r.key = "abs" -> Abs(x) [] r.key = "mod3" -> x % 3
               [] r.key = "zero" -> 0 [] r.key = "half" -> x \div 2 [] r.key = "tab" -> r.tab[x + 1] [] r.key = "tabdesc" -> 0 - r.tab[x + 1]
Length(r) == IF r.l < 0 THEN Len(r.a) - r.i ELSE r.l
Valid(r) == r.i >= 0 /\ r.i <= Len(r.a) /\ Length(r) <= Len(r.a) - r.i
In(r, p) == p > r.i /\ p <= r.i + Length(r)
Count(lo, hi, P(_)) == LET RECURSIVE F(_, _)  F(p, acc) == IF p > hi THEN acc ELSE F(p + 1, IF P(p) THEN acc + 1 ELSE acc) IN F(lo, 0)
\* where position p of the range goes
Rank(r, ks, p) == r.i + 1 + Count(r.i + 1, r.i + Length(r), LAMBDA j : ks[j] < ks[p] \/ (ks[j] = ks[p] /\ j < p))
Sorted(r) == LET ks == [p \in DOMAIN r.a |-> Key(r, r.a[p])]                     \* the positions in their new order
                 to == [p \in DOMAIN r.a |-> IF In(r, p) THEN Rank(r, ks, p) ELSE p]
             IN [p \in DOMAIN r.a |-> CHOOSE q \in DOMAIN r.a : to[q] = p]
Result(r) == IF ~Valid(r) THEN [ok |-> 0, p |-> [p \in DOMAIN r.a |-> p]] ELSE [ok |-> 1, p |-> Sorted(r)]

VARIABLE n
Init == n = 0
Next == n < Len(Rows) /\ n' = n + 1 /\ JsonSerialize("out_" \o ToString(n+1) \o ".json", Result(Rows[n+1]))

\* law: the specified order is a permutation, ordered, stable, and the identity outside the range
Small == UNION {[1..k -> 0..2] : k \in 0..4}
Laws == \A a \in Small, i \in 0..2, l \in -1..3, key \in {"asc", "desc", "zero"} :
  LET r == [a |-> a, i |-> i, l |-> l, key |-> key, tab |-> <<>>]  s == Result(r).p  K(p) == Key(r, a[s[p]]) IN
  Valid(r) => /\ \A p, q \in DOMAIN a : p # q => s[p] # s[q]
              /\ \A p \in DOMAIN a : ~In(r, p) => s[p] = p
              /\ \A p, q \in DOMAIN a : (In(r, p) /\ In(r, q) /\ p < q) => K(p) < K(q) \/ (K(p) = K(q) /\ s[p] < s[q])
LawsOnce == n = 0 => Laws
=============================================================================
