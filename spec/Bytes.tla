------------------------------- MODULE Bytes -------------------------------
(* Two's complement machine integers of any width as little-endian sequences of bytes (TLC's own integers *)
(* are 32 bit).  Width = length of the sequence.  All operators wrap, as SPVM's integer types do.         *)
EXTENDS Integers, Sequences, Bitwise

Zero(w)   == [i \in 1..w |-> 0]
One(w)    == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
AllOnes(w) == [i \in 1..w |-> 255]
IsZero(a) == \A i \in DOMAIN a : a[i] = 0
IsNeg(a)  == a[Len(a)] >= 128
BNot(a)   == [i \in DOMAIN a |-> 255 - a[i]]
BAnd(a,b) == [i \in DOMAIN a |-> a[i] & b[i]]
BOr(a,b)  == [i \in DOMAIN a |-> a[i] | b[i]]
BXor(a,b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]

\* a + b + carry-in c, wrapping
RECURSIVE AddC(_,_,_,_)
AddC(a,b,c,i) == IF i > Len(a) THEN <<>>
                 ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a,b,s \div 256,i+1)
Add(a,b) == AddC(a,b,0,1)
Neg(a)   == AddC(BNot(a), Zero(Len(a)), 1, 1)
Sub(a,b) == AddC(a, BNot(b), 1, 1)

\* column sums of the schoolbook product, truncated to Len(a) bytes
RECURSIVE MulC(_,_,_,_)
RECURSIVE Col(_,_,_,_)
Col(a,b,k,i) == IF i > k THEN 0 ELSE a[i]*b[k+1-i] + Col(a,b,k,i+1)
MulC(a,b,c,k) == IF k > Len(a) THEN <<>>
                 ELSE LET s == Col(a,b,k,1) + c IN <<s % 256>> \o MulC(a,b,s \div 256,k+1)
Mul(a,b) == MulC(a,b,0,1)

\* unsigned comparison: -1, 0, 1
RECURSIVE UCmpI(_,_,_)
UCmpI(a,b,i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE UCmpI(a,b,i-1)
UCmp(a,b) == UCmpI(a,b,Len(a))
SCmp(a,b) == IF IsNeg(a) /\ ~IsNeg(b) THEN -1 ELSE IF ~IsNeg(a) /\ IsNeg(b) THEN 1 ELSE UCmp(a,b)

Pow2 == [i \in 0..7 |-> CASE i=0->1 [] i=1->2 [] i=2->4 [] i=3->8 [] i=4->16 [] i=5->32 [] i=6->64 [] i=7->128]
Bit(a,n) == (a[(n \div 8)+1] \div Pow2[n % 8]) % 2      \* bit n, 0 = least significant
NBits(a) == 8*Len(a)
FromBits(f(_), w) == [i \in 1..w |-> f(8*i-8) + 2*f(8*i-7) + 4*f(8*i-6) + 8*f(8*i-5) + 16*f(8*i-4) + 32*f(8*i-3) + 64*f(8*i-2) + 128*f(8*i-1)]
Shl(a,n)  == LET f(k) == IF k-n < 0 THEN 0 ELSE Bit(a,k-n) IN FromBits(f, Len(a))
ShrL(a,n) == LET f(k) == IF k+n >= NBits(a) THEN 0 ELSE Bit(a,k+n) IN FromBits(f, Len(a))
ShrA(a,n) == LET s == IF IsNeg(a) THEN 1 ELSE 0
                 f(k) == IF k+n >= NBits(a) THEN s ELSE Bit(a,k+n) IN FromBits(f, Len(a))
Shl1(a,low) == LET RECURSIVE G(_,_)
                   G(c,i) == IF i > Len(a) THEN <<>> ELSE <<(2*a[i]+c) % 256>> \o G((2*a[i]+c) \div 256, i+1)
               IN G(low,1)

\* unsigned restoring division, one extra byte of remainder so that the shifted remainder cannot overflow
RECURSIVE UDivI(_,_,_,_,_)
UDivI(a,b,n,q,r) ==
  IF n < 0 THEN [q |-> q, r |-> SubSeq(r,1,Len(a))]
  ELSE LET r2 == Shl1(r, Bit(a,n))
           ge == UCmp(r2,b) >= 0
       IN UDivI(a, b, n-1, Shl1(q, IF ge THEN 1 ELSE 0), IF ge THEN Sub(r2,b) ELSE r2)
\* skip leading zero bits of the dividend
RECURSIVE TopBit(_,_)
TopBit(a,n) == IF n < 0 THEN -1 ELSE IF Bit(a,n) = 1 THEN n ELSE TopBit(a,n-1)
UDivMod(a,b) == UDivI(a, Append(b,0), TopBit(a,NBits(a)-1), Zero(Len(a)), Append(Zero(Len(a)),0))
UDiv(a,b) == UDivMod(a,b).q
UMod(a,b) == UDivMod(a,b).r
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
\* C's truncating division and remainder; MIN / -1 wraps
SDiv(a,b) == LET q == UDiv(Abs(a),Abs(b)) IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
SRem(a,b) == LET r == UMod(Abs(a),Abs(b)) IN IF IsNeg(a) THEN Neg(r) ELSE r

\* sign extension / truncation to w bytes
Conv(a,w) == [i \in 1..w |-> IF i <= Len(a) THEN a[i] ELSE IF IsNeg(a) THEN 255 ELSE 0]
UConv(a,w) == [i \in 1..w |-> IF i <= Len(a) THEN a[i] ELSE 0]
FromInt(n,w) == LET RECURSIVE G(_,_)
                    G(m,i) == IF i > w THEN <<>> ELSE <<m % 256>> \o G(m \div 256, i+1)  \* \div and % are floored
                IN G(n,1)
\* value of a short unsigned sequence (must stay below 2^31)
RECURSIVE ToNatI(_,_)
ToNatI(a,i) == IF i > Len(a) THEN 0 ELSE a[i] + 256*ToNatI(a,i+1)
ToNat(a) == ToNatI(a,1)
SmallInt(a) == IF IsNeg(a) THEN -ToNat(Neg(a)) ELSE ToNat(a)

\* round the magnitude to p significant bits, ties to even (integer -> float conversion); result one byte wider
RoundMag(m,p) ==
  LET w == Len(m)+1
      x == Append(m,0)
      t == TopBit(x, NBits(x)-1)
      d == t+1-p
  IN IF d <= 0 THEN x
     ELSE LET q == ShrL(x,d)
              half == Bit(x,d-1)
              rest == \E k \in 0..(d-2) : Bit(x,k) = 1
              up == half = 1 /\ (rest \/ Bit(q,0) = 1)
          IN Shl(IF up THEN Add(q,One(w)) ELSE q, d)
RoundTo(a,p) == LET m == RoundMag(Abs(a),p) IN IF IsNeg(a) THEN Neg(m) ELSE m   \* one byte wider than a
=============================================================================
