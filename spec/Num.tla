------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Exact arithmetic, written so that no intermediate value leaves TLC's    *)
(* 32-bit integers.                                                        *)
(*                                                                         *)
(*  - residues modulo a prime p < 2^31 are plain naturals < p;             *)
(*  - big integers are sequences <<s, d1, d2, ...>>: sign s \in {-1,0,1}   *)
(*    and little-endian digits in base 10^4, no leading zero, zero is <<0>>*)
(*  - rationals are pairs <<n, d>> of big integers, d > 0, gcd 1.          *)
(*                                                                         *)
(* These are the defining equations.  Num.tla wraps them; a Java class of  *)
(* that name evaluates the wrappers faster and AccelTest.tla checks that   *)
(* both agree.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

BASE == 10000

---------------------------------------------------------------------------
(* residues *)
AddMod(a, b, p) == IF a >= p - b THEN a - (p - b) ELSE a + b
NegMod(a, p)    == IF a = 0 THEN 0 ELSE p - a

RECURSIVE MulMod(_,_,_)
MulMod(a, b, p) ==
  IF b = 0 THEN 0
  ELSE LET h == MulMod(a, b \div 2, p)
           d == AddMod(h, h, p)
       IN  IF b % 2 = 1 THEN AddMod(d, a, p) ELSE d

RECURSIVE PowMod(_,_,_)
PowMod(a, k, p) ==
  IF k = 0 THEN 1 % p
  ELSE LET h == PowMod(a, k \div 2, p)
           q == MulMod(h, h, p)
       IN  IF k % 2 = 1 THEN MulMod(q, a, p) ELSE q

InvMod(a, p) == PowMod(a, p - 2, p)

---------------------------------------------------------------------------
(* magnitudes: little-endian digit sequences without leading zeros *)
RECURSIVE MTrim(_)
MTrim(m) == IF m = <<>> THEN <<>>
            ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m)-1)) ELSE m

DigitAt(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxLen(a, b)  == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE MAddFrom(_,_,_,_)
MAddFrom(a, b, i, c) ==
  IF i > MaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == DigitAt(a, i) + DigitAt(b, i) + c
       IN  <<s % BASE>> \o MAddFrom(a, b, i+1, s \div BASE)
MAdd(a, b) == MAddFrom(a, b, 1, 0)

RECURSIVE MSubFrom(_,_,_,_)      \* a >= b
MSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - DigitAt(b, i) - c
       IN  IF s < 0 THEN <<s + BASE>> \o MSubFrom(a, b, i+1, 1)
                    ELSE <<s>> \o MSubFrom(a, b, i+1, 0)
MSub(a, b) == MTrim(MSubFrom(a, b, 1, 0))

RECURSIVE MCmpFrom(_,_,_)
MCmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE MCmpFrom(a, b, i-1)
MCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MScaleFrom(_,_,_,_)    \* one digit times a magnitude
MScaleFrom(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c
       IN  <<s % BASE>> \o MScaleFrom(a, d, i+1, s \div BASE)
MScale(a, d) == IF d = 0 THEN <<>> ELSE MScaleFrom(a, d, 1, 0)

RECURSIVE MMul(_,_)
MMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE MAdd(MScale(a, b[1]),
            IF Len(b) = 1 THEN <<>>
            ELSE LET r == MMul(a, MTrim(Tail(b))) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

\* Tail may start with zeros at the low end, which is harmless: digits are little-endian.

RECURSIVE QDigit(_,_,_,_)        \* largest d in lo..hi with d*b <= r
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF MCmp(MScale(b, m), r) <= 0 THEN QDigit(r, b, m, hi) ELSE QDigit(r, b, lo, m-1)

RECURSIVE MDivFrom(_,_,_,_,_)    \* schoolbook division, most significant digit first
MDivFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<MTrim(q), r>>
  ELSE LET r1 == MTrim(<<a[i]>> \o r)
           d  == QDigit(r1, b, 0, BASE - 1)
       IN  MDivFrom(a, b, i-1, <<d>> \o q, MSub(r1, MScale(b, d)))
MDivMod(a, b) == MDivFrom(a, b, Len(a), <<>>, <<>>)

RECURSIVE MGcd(_,_)
MGcd(a, b) == IF b = <<>> THEN a ELSE MGcd(b, MDivMod(a, b)[2])

---------------------------------------------------------------------------
(* signed big integers *)
BMake(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
BSign(a) == a[1]
BMag(a)  == Tail(a)
BZero == <<0>>
BOne  == <<1, 1>>
BNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)
BAbs(a) == IF a[1] = 0 THEN a ELSE <<1>> \o Tail(a)

RECURSIVE NatDigits(_)
NatDigits(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NatDigits(n \div BASE)
BFromInt(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o NatDigits(n) ELSE <<-1>> \o NatDigits(-n)

BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1]>> \o MAdd(BMag(a), BMag(b))
  ELSE LET c == MCmp(BMag(a), BMag(b))
       IN  IF c = 0 THEN BZero
           ELSE IF c > 0 THEN BMake(a[1], MSub(BMag(a), BMag(b)))
           ELSE BMake(b[1], MSub(BMag(b), BMag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN BZero ELSE <<a[1]*b[1]>> \o MMul(BMag(a), BMag(b))
BCmp(a, b) == BSign(BSub(a, b))
BGcd(a, b) == BMake(1, MGcd(BMag(a), BMag(b)))
BDivExact(a, b) == IF a[1] = 0 THEN BZero ELSE BMake(a[1]*b[1], MDivMod(BMag(a), BMag(b))[1])

RECURSIVE MMod(_,_,_)            \* magnitude modulo a small modulus, Horner
MMod(m, i, p) == IF i > Len(m) THEN 0
                 ELSE AddMod(m[i] % p, MulMod(MMod(m, i+1, p), BASE % p, p), p)
BMod(a, p) == LET r == MMod(BMag(a), 1, p) IN IF a[1] < 0 THEN NegMod(r, p) ELSE r

RECURSIVE BPow(_,_)
BPow(a, k) == IF k = 0 THEN BOne
              ELSE LET h == BPow(a, k \div 2)
                       q == BMul(h, h)
                   IN  IF k % 2 = 1 THEN BMul(q, a) ELSE q

---------------------------------------------------------------------------
(* rationals *)
QMake(n, d) ==
  IF n[1] = 0 THEN <<BZero, BOne>>
  ELSE LET g == BGcd(n, d)
           s == IF d[1] < 0 THEN -1 ELSE 1
           n1 == BDivExact(n, g)
           d1 == BDivExact(d, g)
       IN  IF s < 0 THEN <<BNeg(n1), BNeg(d1)>> ELSE <<n1, d1>>
QZero == <<BZero, BOne>>
QOne  == <<BOne, BOne>>
QFromInt(n) == <<BFromInt(n), BOne>>
QAdd(a, b) == QMake(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
QNeg(a)    == <<BNeg(a[1]), a[2]>>
QMul(a, b) == QMake(BMul(a[1], b[1]), BMul(a[2], b[2]))
QInv(a)    == QMake(a[2], a[1])
QSign(a)   == a[1][1]
QCmp(a, b) == QSign(QAdd(a, QNeg(b)))

---------------------------------------------------------------------------
(* the coefficient field of characteristic p; p = 0 is the rationals *)
FZero(p) == IF p = 0 THEN QZero ELSE 0
FOne(p)  == IF p = 0 THEN QOne ELSE 1 % p
FAdd(p, a, b) == IF p = 0 THEN QAdd(a, b) ELSE AddMod(a, b, p)
FNeg(p, a)    == IF p = 0 THEN QNeg(a) ELSE NegMod(a, p)
FMul(p, a, b) == IF p = 0 THEN QMul(a, b) ELSE MulMod(a, b, p)
FInv(p, a)    == IF p = 0 THEN QInv(a) ELSE InvMod(a, p)
FIsZero(p, a) == IF p = 0 THEN a[1][1] = 0 ELSE a = 0
\* a rational (pair of big integers) read as an element of the field; only
\* meaningful when p does not divide the denominator
FOfQ(p, q)    == IF p = 0 THEN q ELSE MulMod(BMod(q[1], p), InvMod(BMod(q[2], p), p), p)
=============================================================================
