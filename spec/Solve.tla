------------------------------- MODULE Solve --------------------------------
(***************************************************************************)
(* Solution sets of polynomial systems: dimension, number of solutions,    *)
(* a description of the solutions by the roots of one univariate           *)
(* polynomial, exact decisions about real roots, and what it means for     *)
(* parametrizations and for lists of boxes to describe the solutions.      *)
(***************************************************************************)
EXTENDS Groebner, Lin

---------------------------------------------------------------------------
SquareFree(p, f) == UQuo(p, f, UGcd(p, f, UDer(p, f)))

VarMono(n, i) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
VarPoly(n, p, i) == <<<<FOne(p), VarMono(n, i)>>>>
\* f(x_i) as a polynomial in n variables
AtVar(n, p, f, i) == PNormal(0, p, [k \in 1..Len(f) |-> <<f[k], [j \in 1..n |-> IF j = i THEN k-1 ELSE 0]>>])
LinForm(n, p, c) == PNormal(0, p, [i \in 1..n |-> <<NatField(p, c[i]), VarMono(n, i)>>])

\* Seidenberg: the radical of a zero-dimensional ideal is generated by it and the square-free parts of
\* the minimal polynomials of the variables
NewParts(n, p, G) ==
  SelectSeq(Now([i \in 1..n |-> LET m == MinPoly(n, p, G, VarPoly(n, p, i))
                                    f == SquareFree(p, m)
                                IN  IF Len(f) = Len(m) THEN <<>> ELSE AtVar(n, p, f, i)]),
            LAMBDA f : f # <<>>)
Radical(n, p, G) == LET N == NewParts(n, p, G) IN IF N = <<>> THEN G ELSE RefGB(0, p, G \o N)

\* a linear form that takes different values at different solutions
FormNr(n, k) == [i \in 1..n |-> IF k < n THEN (IF i = n - k THEN 1 ELSE 0)
                                ELSE IF i = n THEN 1 ELSE ((k * i * i + i) % 17) - 5]
RECURSIVE SeparatingFrom(_,_,_,_,_)
SeparatingFrom(n, p, J, d, k) ==
  LET t == LinForm(n, p, FormNr(n, k))
      r == IF t = <<>> THEN <<<<>>, <<>>>> ELSE Krylov(n, p, J, t)
  IN  IF t # <<>> /\ Len(r[1]) = d + 1 THEN [t |-> FormNr(n, k), m |-> r[1], rows |-> r[2]]
      ELSE SeparatingFrom(n, p, J, d, k+1)

\* the coordinate x_i as a polynomial in the separating form
Coord(n, p, J, rows, i) ==
  UNeg(p, ReduceRow(p, NF(0, p, VarPoly(n, p, i), J), <<>>, rows)[2])

(* What is true about the solutions of F.  The description: the solutions  *)
(* are x_i = x[i](u) / den(u) for the roots u of the square-free m.        *)
SolveTruth(n, p, F) ==
  LET G == RefGB(0, p, F)
      d == IdealDim(n, G)
  IN  IF d # 0 THEN [gb |-> G, dim |-> d]
      ELSE LET J == Radical(n, p, G)
               N == Cardinality(Staircase(n, J))
               s == SeparatingFrom(n, p, J, N, 0)
           IN  [gb |-> G, dim |-> 0, par |-> 0, ord |-> <<>>, deg |-> Cardinality(Staircase(n, G)), nsol |-> N,
                m |-> s.m, den |-> <<FOne(p)>>,
                x |-> Now([i \in 1..n |-> Coord(n, p, J, s.rows, i)])]
(* Systems in shape position with a factored last polynomial: c f(x_n) and c_i x_i - g_i(x_n), where  *)
(* f = product of facs[i][1]^facs[i][2].  The truth is in the text; what is checked is that it is so.  *)
RECURSIVE UPower(_,_,_)
UPower(p, f, k) == IF k = 0 THEN <<FOne(p)>>
                   ELSE IF k % 2 = 1 THEN UMul(p, f, UPower(p, f, k-1))
                   ELSE LET h == UPower(p, f, k \div 2) IN UMul(p, h, h)
RECURSIVE UProduct(_,_,_,_)        \* of fs[i..j]
UProduct(p, fs, i, j) == IF i > j THEN <<FOne(p)>> ELSE IF i = j THEN fs[i]
                         ELSE LET k == (i + j) \div 2 IN UMul(p, UProduct(p, fs, i, k), UProduct(p, fs, k+1, j))
\* a polynomial in x_n only, as a univariate one
OnlyLast(n, g) == \A k \in 1..Len(g) : \A i \in 1..n-1 : g[k][2][i] = 0
AsUni(n, p, g) == LET d == IF g = <<>> THEN -1 ELSE Max({g[k][2][n] : k \in 1..Len(g)})
                  IN  Now([k \in 1..d+1 |-> LET c == {j \in 1..Len(g) : g[j][2][n] = k-1}
                                          IN  IF c = {} THEN FZero(p) ELSE g[CHOOSE j \in c : TRUE][1]])
LinearIn(n, g, i) == \E k \in 1..Len(g) : /\ g[k][2] = VarMono(n, i)
                                           /\ OnlyLast(n, SelectSeq(g, LAMBDA x : x[2] # VarMono(n, i)))
ShapeTruth(n, q, gens, facs) ==
  LET fs   == Now([i \in 1..Len(facs) |-> facs[i][1]])
      full == UProduct(0, [i \in 1..Len(facs) |-> UPower(0, facs[i][1], facs[i][2])], 1, Len(facs))
      sqf  == UProduct(q, [i \in 1..Len(fs) |-> UTrim(q, [k \in 1..Len(fs[i]) |-> FOfQ(q, fs[i][k])])], 1, Len(fs))
      deg  == Len(full) - 1
      nsol == FoldLeft(LAMBDA a, f : a + Len(f) - 1, 0, fs)
      last == CHOOSE g \in ToSet(gens) : OnlyLast(n, g)
      x(i) == LET g == CHOOSE g \in ToSet(gens) : ~OnlyLast(n, g) /\ LinearIn(n, g, i)
                  c == g[CHOOSE k \in 1..Len(g) : g[k][2] = VarMono(n, i)][1]
              IN  UScale(0, QNeg(QInv(c)), AsUni(n, 0, SelectSeq(g, LAMBDA y : y[2] # VarMono(n, i))))
      u    == AsUni(n, 0, last)
  IN  [ok   |-> /\ Len(gens) = n
                /\ UMonic(0, u) = UMonic(0, full)
                /\ Len(sqf) = nsol + 1 /\ Len(UGcd(q, sqf, UDer(q, sqf))) = 1,
       gb |-> <<>>, dim |-> 0, par |-> 0, ord |-> <<>>, deg |-> deg, nsol |-> nsol, m |-> <<FOne(0)>>, facs |-> fs, den |-> <<FOne(0)>>,
       x    |-> Now([i \in 1..n |-> IF i = n THEN <<QZero, QOne>> ELSE x(i)])]

\* without the description
CountTruth(n, p, F) ==
  LET G == RefGB(0, p, F)
      d == IdealDim(n, G)
  IN  IF d # 0 THEN [gb |-> G, dim |-> d]
      ELSE [gb |-> G, dim |-> 0, par |-> 0, ord |-> <<>>, deg |-> Cardinality(Staircase(n, G)),
            nsol |-> Cardinality(Staircase(n, Radical(n, p, G))),
            m |-> <<>>, den |-> <<>>, x |-> <<>>]

---------------------------------------------------------------------------
(* real roots of rational polynomials, exactly *)
QHalf == <<BOne, BFromInt(2)>>
QMid(a, b) == QMul(QHalf, QAdd(a, b))
\* all roots of f lie in (-b, b)
RootBound(f) ==
  LET lc == QInv(f[Len(f)])
      A(i) == LET q == QMul(f[i], lc) IN <<BAbs(q[1]), q[2]>>
      RECURSIVE S(_)
      S(i) == IF i >= Len(f) THEN QFromInt(1) ELSE QAdd(A(i), S(i+1))
  IN  QAdd(S(1), QOne)

\* Isolating intervals of the roots of the square-free f, increasing: <<a, b>> with a = b an exact
\* root, or a < b, f(a) f(b) # 0 and exactly one root in (a, b).
RECURSIVE IsolateIn(_,_,_,_)
IsolateIn(f, S, a, b) ==       \* f(a), f(b) not zero
  LET k == Query(S, a, b)
  IN  IF k = 0 THEN <<>>
      ELSE IF k = 1 THEN << <<a, b>> >>
      ELSE LET m == QMid(a, b)
           IN  IF QSign(UEval(0, f, m)) # 0
               THEN IsolateIn(f, S, a, m) \o IsolateIn(f, S, m, b)
               ELSE \* m is a root: step aside by a width without another root
                    LET RECURSIVE W(_)
                        W(w) == LET x == QAdd(m, QNeg(w))
                                    y == QAdd(m, w)
                                IN  IF /\ QSign(UEval(0, f, x)) # 0 /\ QSign(UEval(0, f, y)) # 0
                                       /\ Query(S, x, y) = 1
                                    THEN w ELSE W(QMul(QHalf, w))
                        w == W(QMul(QHalf, QAdd(m, QNeg(a))))
                    IN  IsolateIn(f, S, a, QAdd(m, QNeg(w))) \o << <<m, m>> >>
                          \o IsolateIn(f, S, QAdd(m, w), b)
Isolate(f) == IF Len(f) < 2 THEN <<>>
              ELSE LET S == Now(SturmSeq(f, <<QOne>>))
                       b == RootBound(f)
                   IN  IsolateIn(f, S, QNeg(b), b)

---------------------------------------------------------------------------
(* boxes: sequences of n pairs <<lo, hi>> of rationals *)

\* the polynomials whose roots describe the solutions: m, or its known factors
Parts(t) == IF "facs" \in DOMAIN t THEN t.facs ELSE <<t.m>>

\* the sign of x_i - c at the root of f isolated by I
SideOf(t, f, I, i, c) ==
  SignAtRoot(f, I[1], I[2], t.den)
    * SignAtRoot(f, I[1], I[2], USub(0, t.x[i], UScale(0, c, t.den)))
InBox(t, f, I, box) ==
  \A i \in 1..Len(box) : SideOf(t, f, I, i, box[i][1]) >= 0 /\ SideOf(t, f, I, i, box[i][2]) <= 0

\* the real roots of the factors: <<factor, interval>>
RealRoots(t) ==
  LET P == Parts(t)
      Of(f) == LET Q == Now(Isolate(f)) IN Now([j \in 1..Len(Q) |-> <<f, Refine(f, Q[j][1], Q[j][2], 180)>>])
  IN  FlattenSeq([i \in 1..Len(P) |-> Of(P[i])])

BoxesRight(s, t, boxes) ==
  /\ t.dim = 0 /\ t.m # <<>>
  /\ \A k \in 1..Len(boxes) : Len(boxes[k]) = s.n
                              /\ \A i \in 1..s.n : QCmp(boxes[k][i][1], boxes[k][i][2]) <= 0
  /\ LET R == Now(RealRoots(t))
         In == Now([k \in 1..Len(boxes) |-> {j \in 1..Len(R) : InBox(t, R[j][1], R[j][2], boxes[k])}])
     IN  /\ Len(boxes) = Len(R)                                   \* as many boxes as real solutions
         /\ \A k \in 1..Len(boxes) :                              \* one solution in each; they may overlap if a
              \/ Cardinality(In[k]) = 1                           \* precision is asked for and no variable separates
              \/ Cardinality(In[k]) > 1 /\ t.par = s.n + 1 /\ s.width # <<>>
         /\ UNION {In[k] : k \in 1..Len(boxes)} = 1..Len(R)       \* each solution in one
         /\ \A k \in 1..Len(boxes) :                              \* the parameter as narrow as asked for
              (s.width = <<>> \/ t.par \notin 1..s.n)
              \/ QCmp(QAdd(boxes[k][t.par][2], QNeg(boxes[k][t.par][1])), s.width) <= 0

---------------------------------------------------------------------------
(* rational parametrizations                                               *)
(* r.names: the variables the answer uses, as indices 1..n, n+1 for a new  *)
(* one; the last one is the parameter u.  r.elim, r.den: univariate;       *)
(* r.v[j] / r.c[j]: numerators, x_j = - v_j / (c_j den); r.lf: the linear  *)
(* form that is zero if there is a new variable.                           *)

RECURSIVE UPowMod(_,_,_,_)
UPowMod(p, f, k, m) == IF k = 0 THEN URem(p, <<FOne(p)>>, m)
                       ELSE LET h == UPowMod(p, f, k \div 2, m)
                                q == URem(p, UMul(p, h, h), m)
                            IN  IF k % 2 = 1 THEN URem(p, UMul(p, q, f), m) ELSE q

\* inverse of f modulo m by the extended Euclidean algorithm (gcd 1)
RECURSIVE UInvRec(_,_,_,_,_)
UInvRec(p, a, b, x, y) ==   \* a = x f, b = y f modulo m
  IF Len(b) = 1 THEN UScale(p, FInv(p, b[1]), y)
  ELSE LET q == UDivMod(p, a, b) IN UInvRec(p, b, q[2], y, USub(p, x, UMul(p, q[1], y)))
UInvMod(p, f, m) == URem(p, UInvRec(p, m, URem(p, f, m), <<>>, <<FOne(p)>>), m)

\* the value of the term c x^a at the coordinates X modulo m
RECURSIVE TermAt(_,_,_,_,_)
TermAt(p, X, a, i, m) ==
  IF i > Len(a) THEN <<FOne(p)>>
  ELSE LET r == TermAt(p, X, a, i+1, m)
       IN  IF a[i] = 0 THEN r ELSE URem(p, UMul(p, UPowMod(p, X[i], a[i], m), r), m)
RECURSIVE PolyAt(_,_,_,_,_)
PolyAt(p, X, f, k, m) ==
  IF k > Len(f) THEN <<>>
  ELSE UAdd(p, UScale(p, f[k][1], TermAt(p, X, f[k][2], 1, m)), PolyAt(p, X, f, k+1, m))

\* the shape of a parametrization
ParamForm(p, n, r) ==
  LET nv == Len(r.names)
  IN  /\ r.char = p /\ r.nvars = nv
      /\ nv = (IF r.names[nv] = n + 1 THEN n + 1 ELSE n)
      /\ {r.names[j] : j \in 1..nv} = 1..nv                       \* every variable once
      /\ Len(r.v) = nv - 1 /\ Len(r.c) = nv - 1 /\ Len(r.lf) = nv
      /\ \A j \in 1..nv-1 : ~FIsZero(p, r.c[j])
      /\ IF nv = n + 1 THEN ~FIsZero(p, r.lf[nv])
         ELSE \A j \in 1..nv : r.lf[j] = (IF j = nv THEN FOne(p) ELSE FZero(p))

\* gens: polynomials over the field of characteristic p
ParamOver(p, n, gens, t, r) ==
  LET nv == Len(r.names)
      el == UTrim(p, r.elim)
      dn == UTrim(p, r.den)
      U  == URem(p, <<FZero(p), FOne(p)>>, el)
      I  == UInvMod(p, dn, el)
      At(j) == UNeg(p, URem(p, UMul(p, UScale(p, FInv(p, r.c[j]), UTrim(p, r.v[j])), I), el))
      \* coordinate of variable i
      X  == Now([i \in 1..n |-> IF r.names[nv] = i THEN U
                                ELSE At(CHOOSE j \in 1..nv-1 : r.names[j] = i)])
      RECURSIVE Lin(_)
      Lin(j) == IF j > nv THEN <<>>
                ELSE UAdd(p, UScale(p, r.lf[j], IF r.names[j] = n+1 THEN U ELSE X[r.names[j]]), Lin(j+1))
  IN  /\ t.dim = 0 /\ r.deg = t.deg
      /\ Len(el) = t.nsol + 1                                     \* one root per solution,
      /\ Len(UGcd(p, el, UDer(p, el))) = 1                        \* all different
      /\ Len(el) > 1 /\ dn # <<>> /\ Len(UGcd(p, dn, el)) = 1
      /\ \A k \in 1..Len(gens) : PolyAt(p, X, gens[k], 1, el) = <<>>   \* all of them solutions
      /\ nv = n + 1 => URem(p, Lin(1), el) = <<>>                 \* u separates them

\* the image of a rational parametrization modulo a prime q that divides no denominator
FieldSeq(q, u) == Now([i \in 1..Len(u) |-> FOfQ(q, u[i])])
ParamMod(q, r) ==
  [char |-> q, nvars |-> r.nvars, deg |-> r.deg, names |-> r.names, lf |-> FieldSeq(q, r.lf),
   elim |-> FieldSeq(q, r.elim), den |-> FieldSeq(q, r.den), c |-> FieldSeq(q, r.c),
   v |-> Now([j \in 1..Len(r.v) |-> FieldSeq(q, r.v[j])])]

\* the description that belongs to a parametrization over the rationals
ParamDesc(t, n, r) ==
  LET nv == Len(r.names)
      dn == UTrim(0, r.den)
      el == UTrim(0, r.elim)
  IN  [t EXCEPT !.m = el, !.den = dn,
         !.x = Now([i \in 1..n |-> IF r.names[nv] = i THEN UMul(0, <<QZero, QOne>>, dn)
                    ELSE LET j == CHOOSE k \in 1..nv-1 : r.names[k] = i
                         IN  UNeg(0, UScale(0, QInv(r.c[j]), UTrim(0, r.v[j])))])]
=============================================================================
