------------------------------- MODULE Arith -------------------------------
(* C05: integer arithmetic of the SPVM language.  A state is one (operator, left type, right type) row;    *)
(* the step computes the row's results for every pair of the given operand values and writes them out for *)
(* replay in the implementation.  Laws are invariants over all rows and pairs.                             *)
EXTENDS Bytes, Json, TLC, IOUtils
CONSTANTS RowsFile
Input == JsonDeserialize(RowsFile)        \* [rows |-> <<[op, lt, rt, ls |-> <<bytes>>, rs |-> <<bytes>>]>>]
Rows == Input.rows

Width(t) == CASE t = "byte" -> 1 [] t = "short" -> 2 [] t = "int" -> 4 [] t = "long" -> 8
PW(t)  == IF Width(t) < 4 THEN 4 ELSE Width(t)                      \* integer promotion
BW(lt,rt) == IF PW(lt) > PW(rt) THEN PW(lt) ELSE PW(rt)            \* binary numeric conversion

B(c,w) == IF c THEN One(w) ELSE Zero(w)
Exc == [exc |-> TRUE]
Val(v) == [v |-> v]

\* modulo: sign of the right operand
FMod(a,b) == LET r == SRem(a,b) IN IF IsNeg(a) # IsNeg(b) /\ ~IsZero(r) THEN Add(r,b) ELSE r

Cmp3(a,b) == FromInt(SCmp(a,b), 4)

Bin(op,lt,rt,l,r) ==
  LET w == BW(lt,rt)
      a == Conv(l,w)
      b == Conv(r,w)
      pl == Conv(l,PW(lt))
      n == SmallInt(r)
  IN CASE op = "+" -> Val(Add(a,b))
       [] op = "-" -> Val(Sub(a,b))
       [] op = "*" -> Val(Mul(a,b))
       [] op = "/" -> IF IsZero(b) THEN Exc ELSE Val(SDiv(a,b))
       [] op = "%" -> IF IsZero(b) THEN Exc ELSE Val(FMod(a,b))
       [] op \in {"div_uint","div_ulong"} -> IF IsZero(r) THEN Exc ELSE Val(UDiv(l,r))
       [] op \in {"mod_uint","mod_ulong"} -> IF IsZero(r) THEN Exc ELSE Val(UMod(l,r))
       [] op = "&" -> Val(BAnd(a,b))
       [] op = "|" -> Val(BOr(a,b))
       [] op = "^" -> Val(BXor(a,b))
       [] op = "<<" -> Val(Shl(pl,n))
       [] op = ">>" -> Val(ShrA(pl,n))
       [] op = ">>>" -> Val(ShrL(pl,n))
       [] op = "==" -> Val(B(SCmp(a,b) = 0,4))
       [] op = "!=" -> Val(B(SCmp(a,b) # 0,4))
       [] op = "<"  -> Val(B(SCmp(a,b) < 0,4))
       [] op = "<=" -> Val(B(SCmp(a,b) <= 0,4))
       [] op = ">"  -> Val(B(SCmp(a,b) > 0,4))
       [] op = ">=" -> Val(B(SCmp(a,b) >= 0,4))
       [] op = "<=>" -> Val(Cmp3(a,b))
       [] op = "and" -> Val(B(~IsZero(l) /\ ~IsZero(r),4))
\* an operation and the comparison or division that undoes it, in one expression: wrapping must be visible
Chain(op,lt,rt,l,r) ==
  LET w == BW(lt,rt)
      a == Conv(l,w)
      b == Conv(r,w)
  IN CASE op = "add_gt" -> Val(B(SCmp(Add(a,b),a) > 0, 4))
       [] op = "sub_gt0" -> Val(B(SCmp(Sub(a,b),Zero(w)) > 0, 4))
       [] op = "neg_lt" -> Val(B(SCmp(Conv(Neg(Conv(l,PW(lt))),w),b) < 0, 4))
       [] op = "mul_div" -> IF IsZero(b) THEN Exc ELSE Val(SDiv(Mul(a,b),b))
\* float and double operands holding small integers: exact results are those of integer arithmetic
Flt(op,l,r) ==
  IF op = "/" THEN IF IsZero(r) \/ ~IsZero(SRem(l,r)) THEN [skip |-> TRUE] ELSE Val(SDiv(l,r))
  ELSE Bin(op,"long","long",l,r)
\* compound assignment converts the result back to the left type
Compound(op,lt,rt,l,r) == LET x == Bin(op,lt,rt,l,r) IN IF x = Exc THEN Exc ELSE Val(Conv(x.v, Width(lt)))
\* float types: 24 and 53 significant bits.  Conversion there and back; out-of-range results are undefined in C
Prec(t) == IF t = "float" THEN 24 ELSE 53
\* |rounded| < 2^(bits-1), judged on the magnitude (one byte wider than the operand, so it cannot overflow)
InRange(m,w) == TopBit(m, NBits(m)-1) < 8*w-1
Un(op,t,l) ==
  LET a == Conv(l,PW(t)) IN
  CASE op = "neg" -> Val(Neg(a))
    [] op = "plus" -> Val(a)
    [] op = "~" -> Val(BNot(a))
    [] op = "!" -> Val(B(IsZero(l),4))
    [] op = "bool" -> Val(B(~IsZero(l),4))
    [] op = "preinc" -> Val(Conv(Add(a,One(Len(a))), Width(t)))
    [] op = "predec" -> Val(Conv(Sub(a,One(Len(a))), Width(t)))
    [] op = "cast_byte" -> Val(Conv(l,1))
    [] op = "cast_short" -> Val(Conv(l,2))
    [] op = "cast_int" -> Val(Conv(l,4))
    [] op = "cast_long" -> Val(Conv(l,8))
    [] op \in {"rt_float","rt_double"} ->
         LET p == IF op = "rt_float" THEN 24 ELSE 53
             m == RoundMag(Abs(l),p)
             v == IF IsNeg(l) THEN Neg(m) ELSE m
         IN IF InRange(m,Width(t)) THEN Val(Conv(v,Width(t))) ELSE [skip |-> TRUE]
    [] op \in {"fromf_byte","fromf_short","fromf_int","fromf_long"} -> Val(l)   \* exactly representable values only

Result(row,l,r) ==
  IF row.kind = "bin" THEN Bin(row.op,row.lt,row.rt,l,r)
  ELSE IF row.kind = "chain" THEN Chain(row.op,row.lt,row.rt,l,r)
  ELSE IF row.kind \in {"flt","fltasg"} THEN Flt(row.op,l,r)
  ELSE IF row.kind = "asg" THEN Compound(row.op,row.lt,row.rt,l,r)
  ELSE Un(row.op,row.lt,l)

VARIABLES row, done
vars == <<row,done>>
Init == row \in 1..Len(Rows) /\ done = FALSE
Table(R) == [i \in 1..Len(R.ls) |-> [j \in 1..Len(R.rs) |-> Result(R, R.ls[i], R.rs[j])]]
Emit == /\ ~done
        /\ JsonSerialize("out_" \o ToString(row) \o ".json", Table(Rows[row]))
        /\ done' = TRUE /\ UNCHANGED row
Next == Emit
Spec == Init /\ [][Next]_vars

\* Laws, checked for every row and pair (spec-level sanity: the oracle itself is consistent)
Laws(R,l,r) ==
  LET w == BW(R.lt,R.rt)
      a == Conv(l,w)
      b == Conv(r,w)
  IN /\ R.op = "+" => Sub(Add(a,b),b) = a /\ Add(a,b) = Add(b,a)
     /\ R.op = "-" => Add(Sub(a,b),b) = a /\ Sub(a,b) = Neg(Sub(b,a))
     /\ R.op = "*" => Mul(a,b) = Mul(b,a)
     /\ (R.op = "/" /\ ~IsZero(b)) => Add(Mul(SDiv(a,b),b), SRem(a,b)) = a
     /\ (R.op = "%" /\ ~IsZero(b)) => LET m == FMod(a,b) IN IsZero(m) \/ IsNeg(m) = IsNeg(b)
     /\ (R.op \in {"div_uint","div_ulong"} /\ ~IsZero(r)) => Add(Mul(UDiv(l,r),r), UMod(l,r)) = l
LawsHold == (~done /\ Rows[row].kind = "bin") =>
            \A i \in 1..Len(Rows[row].ls) : \A j \in 1..Len(Rows[row].rs) : Laws(Rows[row], Rows[row].ls[i], Rows[row].rs[j])
=============================================================================
