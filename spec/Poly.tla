------------------------------- MODULE Poly -------------------------------
(***************************************************************************)
(* Monomials, term orders and polynomials.                                 *)
(*                                                                         *)
(* A monomial is the sequence of its exponents.  A term order is given by  *)
(* the number e of variables of its first block: e = 0 is the graded       *)
(* reverse lexicographical order (DRL), e = k eliminates the first k       *)
(* variables (two DRL blocks), e = -1 is the lexicographical order.  A     *)
(* polynomial is a sequence of terms <<coefficient, monomial>>, strictly   *)
(* decreasing, no zero coefficient.                                        *)
(***************************************************************************)
EXTENDS Num

RECURSIVE SumFrom(_,_,_)
SumFrom(s, i, j) == IF i > j THEN 0 ELSE s[i] + SumFrom(s, i+1, j)
MDeg(m) == SumFrom(m, 1, Len(m))

\* -1, 0, 1: DRL comparison of variables i..j
RECURSIVE RevLex(_,_,_,_)
RevLex(a, b, i, j) ==
  IF j < i THEN 0
  ELSE IF a[j] # b[j] THEN (IF a[j] > b[j] THEN -1 ELSE 1)   \* larger last exponent is smaller
  ELSE RevLex(a, b, i, j-1)
DRL(a, b, i, j) ==
  LET da == SumFrom(a, i, j)
      db == SumFrom(b, i, j)
  IN  IF da # db THEN (IF da < db THEN -1 ELSE 1) ELSE RevLex(a, b, i, j)

RECURSIVE LexCmp(_,_,_)
LexCmp(a, b, i) == IF i > Len(a) THEN 0
                   ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE LexCmp(a, b, i+1)

MonoCmp(e, a, b) ==
  IF e = -1 THEN LexCmp(a, b, 1)
  ELSE IF e = 0 THEN DRL(a, b, 1, Len(a))
  ELSE LET c == DRL(a, b, 1, e) IN IF c # 0 THEN c ELSE DRL(a, b, e+1, Len(a))

MonoMul(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
MonoDiv(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Divides(a, b) == \A i \in 1..Len(a) : a[i] <= b[i]            \* a | b
MonoLcm(a, b) == [i \in 1..Len(a) |-> IF a[i] > b[i] THEN a[i] ELSE b[i]]
Coprime(a, b) == \A i \in 1..Len(a) : a[i] = 0 \/ b[i] = 0
MonoOne(n)    == [i \in 1..n |-> 0]

LC(f) == f[1][1]
LM(f) == f[1][2]

RECURSIVE PAdd(_,_,_,_)
PAdd(e, p, f, g) ==
  IF f = <<>> THEN g ELSE IF g = <<>> THEN f
  ELSE LET c == MonoCmp(e, f[1][2], g[1][2])
       IN  IF c > 0 THEN <<f[1]>> \o PAdd(e, p, Tail(f), g)
           ELSE IF c < 0 THEN <<g[1]>> \o PAdd(e, p, f, Tail(g))
           ELSE LET s == FAdd(p, f[1][1], g[1][1])
                IN  IF FIsZero(p, s) THEN PAdd(e, p, Tail(f), Tail(g))
                    ELSE <<<<s, f[1][2]>>>> \o PAdd(e, p, Tail(f), Tail(g))

PTermMul(p, c, m, f) == [i \in 1..Len(f) |-> <<FMul(p, c, f[i][1]), MonoMul(m, f[i][2])>>]
PNeg(p, f) == [i \in 1..Len(f) |-> <<FNeg(p, f[i][1]), f[i][2]>>]
PSub(e, p, f, g) == PAdd(e, p, f, PNeg(p, g))
Monic(p, f) == IF f = <<>> THEN f
               ELSE LET v == FInv(p, LC(f)) IN [i \in 1..Len(f) |-> <<FMul(p, v, f[i][1]), f[i][2]>>]

RECURSIVE PMul(_,_,_,_)
PMul(e, p, f, g) ==
  IF f = <<>> THEN <<>>
  ELSE PAdd(e, p, PTermMul(p, f[1][1], f[1][2], g), PMul(e, p, Tail(f), g))

\* terms in any order, possibly repeated or zero, to a polynomial
RECURSIVE PNormal(_,_,_)
PNormal(e, p, ts) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Len(ts) = 1 THEN (IF FIsZero(p, ts[1][1]) THEN <<>> ELSE ts)
  ELSE LET h == Len(ts) \div 2
       IN  PAdd(e, p, PNormal(e, p, SubSeq(ts, 1, h)), PNormal(e, p, SubSeq(ts, h+1, Len(ts))))

---------------------------------------------------------------------------
(* division: the normal form of f modulo the sequence G of non-zero polynomials *)
RECURSIVE DivisorFrom(_,_,_)
DivisorFrom(m, G, i) == IF i > Len(G) THEN 0
                        ELSE IF Divides(LM(G[i]), m) THEN i ELSE DivisorFrom(m, G, i+1)

RECURSIVE NFRec(_,_,_,_,_)
NFRec(e, p, f, G, acc) ==
  IF f = <<>> THEN acc
  ELSE LET i == DivisorFrom(LM(f), G, 1)
       IN  IF i = 0 THEN NFRec(e, p, Tail(f), G, Append(acc, f[1]))
           ELSE LET c == FNeg(p, FMul(p, LC(f), FInv(p, LC(G[i]))))
                    m == MonoDiv(LM(f), LM(G[i]))
                IN  NFRec(e, p, PAdd(e, p, f, PTermMul(p, c, m, G[i])), G, acc)
NF(e, p, f, G) == NFRec(e, p, f, G, <<>>)

SPoly(e, p, f, g) ==
  LET l == MonoLcm(LM(f), LM(g))
      a == PTermMul(p, FInv(p, LC(f)), MonoDiv(l, LM(f)), f)
      b == PTermMul(p, FInv(p, LC(g)), MonoDiv(l, LM(g)), g)
  IN  PSub(e, p, a, b)
=============================================================================
