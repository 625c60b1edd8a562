------------------------------ MODULE Univ -------------------------------
(***************************************************************************)
(* Univariate polynomials over the field of characteristic p: coefficient  *)
(* sequences, constant term first, no trailing zero; <<>> is zero.         *)
(***************************************************************************)
EXTENDS Num

RECURSIVE UTrim(_,_)
UTrim(p, f) == IF f = <<>> THEN <<>>
               ELSE IF FIsZero(p, f[Len(f)]) THEN UTrim(p, SubSeq(f, 1, Len(f)-1)) ELSE f

UCoef(p, f, i) == IF i <= Len(f) THEN f[i] ELSE FZero(p)
UAdd(p, f, g) ==
  UTrim(p, [i \in 1..(IF Len(f) > Len(g) THEN Len(f) ELSE Len(g)) |->
              FAdd(p, UCoef(p, f, i), UCoef(p, g, i))])
UScale(p, c, f) == UTrim(p, [i \in 1..Len(f) |-> FMul(p, c, f[i])])
UNeg(p, f) == [i \in 1..Len(f) |-> FNeg(p, f[i])]
USub(p, f, g) == UAdd(p, f, UNeg(p, g))
UShift(p, k, f) == IF f = <<>> THEN f ELSE [i \in 1..k |-> FZero(p)] \o f

RECURSIVE UMul(_,_,_)
UMul(p, f, g) == IF f = <<>> \/ g = <<>> THEN <<>>
                 ELSE UAdd(p, UScale(p, f[1], g), UShift(p, 1, UMul(p, UTrim(p, Tail(f)), g)))

RECURSIVE UDivMod(_,_,_)               \* <<quotient, remainder>>, g # <<>>
UDivMod(p, f, g) ==
  IF Len(f) < Len(g) THEN <<<<>>, f>>
  ELSE LET c == FMul(p, f[Len(f)], FInv(p, g[Len(g)]))
           k == Len(f) - Len(g)
           r == UDivMod(p, USub(p, f, UShift(p, k, UScale(p, c, g))), g)
       IN  <<UAdd(p, UShift(p, k, <<c>>), r[1]), r[2]>>
URem(p, f, g) == UDivMod(p, f, g)[2]
UQuo(p, f, g) == UDivMod(p, f, g)[1]

NatField(p, n) == IF p = 0 THEN QFromInt(n) ELSE n % p
UDer(p, f) == IF f = <<>> THEN <<>> ELSE UTrim(p, [i \in 1..Len(f)-1 |-> FMul(p, NatField(p, i), f[i+1])])
UMonic(p, f) == IF f = <<>> THEN f ELSE UScale(p, FInv(p, f[Len(f)]), f)

RECURSIVE UGcdRec(_,_,_)
UGcdRec(p, f, g) == IF g = <<>> THEN UMonic(p, f) ELSE UGcdRec(p, g, UMonic(p, URem(p, f, g)))
UGcd(p, f, g) == UGcdRec(p, f, g)

RECURSIVE UEvalFrom(_,_,_,_)
UEvalFrom(p, f, x, i) == IF i > Len(f) THEN FZero(p)
                         ELSE FAdd(p, f[i], FMul(p, x, UEvalFrom(p, f, x, i+1)))
UEval(p, f, x) == UEvalFrom(p, f, x, 1)

\* the positive multiple of a rational polynomial that has integer coefficients with gcd 1
RECURSIVE DenLcm(_,_)
DenLcm(f, i) == IF i > Len(f) THEN BOne
                ELSE LET l == DenLcm(f, i+1) IN BMul(l, BDivExact(f[i][2], BGcd(l, f[i][2])))
RECURSIVE NumGcd(_,_)
NumGcd(f, i) == IF i > Len(f) THEN BZero ELSE BGcd(f[i][1], NumGcd(f, i+1))
UTame(f) == IF f = <<>> THEN f
            ELSE LET g == UScale(0, <<DenLcm(f, 1), BOne>>, f)
                 IN  UScale(0, QInv(<<NumGcd(g, 1), BOne>>), g)

---------------------------------------------------------------------------
(* Sturm sequences of rational polynomials *)
RECURSIVE SturmFrom(_,_)
SturmFrom(f, g) == IF g = <<>> THEN <<f>> ELSE <<f>> \o SturmFrom(g, UTame(UNeg(0, URem(0, f, g))))
\* generalised Sturm sequence of f and f' g: counts the roots of f with the sign of g
SturmSeq(f, g) == SturmFrom(UTame(f), UTame(URem(0, UMul(0, UDer(0, f), g), f)))

RECURSIVE VarCount(_,_,_)
VarCount(s, i, last) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = 0 THEN VarCount(s, i+1, last)
  ELSE (IF last # 0 /\ s[i] # last THEN 1 ELSE 0) + VarCount(s, i+1, s[i])
\* sign variations of the sequence S of polynomials at x
VarAt(S, x) == VarCount([i \in 1..Len(S) |-> QSign(UEval(0, S[i], x))], 1, 0)

\* f square-free, not zero at a and b: sum over its roots in (a,b) of the signs of g
Query(S, a, b) == VarAt(S, a) - VarAt(S, b)
\* the sign of g at the only root of the square-free f in (a,b), or at the root a of f if a = b
SignAtRoot(f, a, b, g) ==
  IF g = <<>> THEN 0
  ELSE IF a = b THEN QSign(UEval(0, g, a))
  ELSE Query(SturmSeq(f, g), a, b)

\* bisection: a narrower interval around the only root of f in (a,b)
RECURSIVE Refine(_,_,_,_)
Refine(f, a, b, k) ==
  IF k = 0 \/ a = b THEN <<a, b>>
  ELSE LET m == QMul(<<BOne, BFromInt(2)>>, QAdd(a, b))
           s == QSign(UEval(0, f, m))
       IN  IF s = 0 THEN <<m, m>>
           ELSE IF s = QSign(UEval(0, f, a)) THEN Refine(f, m, b, k-1) ELSE Refine(f, a, m, k-1)

\* any value, evaluated at once (TLC evaluates functions lazily, again and again)
Now(v) == v
=============================================================================
