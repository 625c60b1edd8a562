------------------------------ MODULE Groebner ------------------------------
(***************************************************************************)
(* Ideals and their Groebner bases: what msolve has to answer.             *)
(*                                                                         *)
(* Everything is relative to a term order e (number of eliminated          *)
(* variables, 0 for DRL) and a characteristic p (0 for the rationals).     *)
(***************************************************************************)
EXTENDS Poly, FiniteSets, FiniteSetsExt, SequencesExt

---------------------------------------------------------------------------
(* The critical pair bookkeeping of Buchberger's algorithm.  G is a        *)
(* sequence of monic polynomials, P a sequence of pairs <<i, j, lcm, deg>>,*)
(* A the set of the indices of the elements that are not redundant.        *)

Pair(G, i, j) == LET l == MonoLcm(LM(G[i]), LM(G[j])) IN <<i, j, l, MDeg(l)>>

\* Gebauer and Moeller: pairs of the new last element h with the old ones
NewPairs(G, A, h) ==
  LET cand == {Pair(G, i, h) : i \in A}
      \* M: drop a pair whose lcm is strictly divisible by another one's
      m == {x \in cand : ~\E y \in cand : y[3] # x[3] /\ Divides(y[3], x[3])}
      \* F: keep one pair per lcm, none if one of them is coprime
      lcms == {x[3] : x \in m}
  IN  { LET c == {x \in m : x[3] = l} IN CHOOSE x \in c : \A y \in c : x[1] <= y[1] :
          l \in { k \in lcms : ~\E x \in m : x[3] = k /\ Coprime(LM(G[x[1]]), LM(G[h])) } }

\* B: old pairs made superfluous by the new element
KeepOld(G, P, h) ==
  { x \in P : ~ /\ Divides(LM(G[h]), x[3])
                /\ MonoLcm(LM(G[x[1]]), LM(G[h])) # x[3]
                /\ MonoLcm(LM(G[x[2]]), LM(G[h])) # x[3] }

Active(G, A, h) == { i \in A : ~Divides(LM(G[h]), LM(G[i])) } \cup {h}

ActSeq(G, A) == LET s == SetToSortSeq(A, LAMBDA a, b : Len(G[a]) < Len(G[b]) \/ (Len(G[a]) = Len(G[b]) /\ a < b))
                IN  [k \in 1..Len(s) |-> G[s[k]]]

RECURSIVE Insert(_,_,_,_,_,_)      \* insert the polynomials of F one after another
Insert(e, p, G, A, P, F) ==
  IF F = <<>> THEN <<G, A, P>>
  ELSE LET r == Monic(p, NF(e, p, F[1], ActSeq(G, A)))
       IN  IF r = <<>> THEN Insert(e, p, G, A, P, Tail(F))
           ELSE LET G1 == Append(G, r)
                    h  == Len(G1)
                IN  Insert(e, p, G1, Active(G1, A, h),
                           KeepOld(G1, P, h) \cup NewPairs(G1, A, h), Tail(F))

MinPair(P) == LET d == Min({x[4] : x \in P}) IN CHOOSE x \in P : x[4] = d

RECURSIVE Complete(_,_,_,_,_)
Complete(e, p, G, A, P) ==
  IF P = {} THEN ActSeq(G, A)
  ELSE LET x == MinPair(P)
           s == SPoly(e, p, G[x[1]], G[x[2]])
           t == Insert(e, p, G, A, P \ {x}, <<s>>)
       IN  Complete(e, p, t[1], t[2], t[3])

\* minimal basis to reduced basis, sorted by increasing leading monomial
SortInc(e, G) == SortSeq(G, LAMBDA f, g : MonoCmp(e, LM(f), LM(g)) < 0)
Interreduce(e, p, G) ==
  LET M == {i \in 1..Len(G) : ~\E j \in 1..Len(G) : j # i /\ Divides(LM(G[j]), LM(G[i]))
                                                   /\ (LM(G[i]) = LM(G[j]) => j < i)}
      S == [k \in 1..Cardinality(M) |-> G[SetToSortSeq(M, <)[k]]]
      R(f) == Monic(p, <<f[1]>> \o NF(e, p, Tail(f), S))
  IN  SortInc(e, [k \in 1..Len(S) |-> R(S[k])])

\* the reduced Groebner basis of the ideal generated by F (F without zero polynomials)
RefGB(e, p, F) ==
  LET t == Insert(e, p, <<>>, {}, {}, SortInc(e, F))
      G == Complete(e, p, t[1], t[2], t[3])
  IN  Interreduce(e, p, G)

---------------------------------------------------------------------------
(* Characterisation without computing: G is a reduced Groebner basis       *)
RedReduced(e, p, G) ==
  /\ \A i \in 1..Len(G) : G[i] # <<>> /\ LC(G[i]) = FOne(p)
  /\ \A i, j \in 1..Len(G) : i # j =>
        \A k \in 1..Len(G[i]) : ~Divides(LM(G[j]), G[i][k][2])

RECURSIVE PairsOf(_,_,_,_)         \* the pairs the criteria cannot discard
PairsOf(G, k, A, P) ==
  IF k > Len(G) THEN P
  ELSE PairsOf(G, k+1, Active(G, A, k), KeepOld(G, P, k) \cup NewPairs(G, A, k))

IsGB(e, p, G) ==
  \A x \in PairsOf(G, 1, {}, {}) : NF(e, p, SPoly(e, p, G[x[1]], G[x[2]]), G) = <<>>

InIdeal(e, p, G, F) == \A i \in 1..Len(F) : NF(e, p, F[i], G) = <<>>

---------------------------------------------------------------------------
(* invariants of the ideal, read off a Groebner basis G for a degree order *)
LeadMonos(G) == [i \in 1..Len(G) |-> LM(G[i])]
IsUnit(G) == Len(G) = 1 /\ MDeg(LM(G[1])) = 0

\* zero-dimensional: every variable has a pure power among the leading monomials
PurePower(G, v) == \E i \in 1..Len(G) : \A w \in 1..Len(LM(G[i])) : (w # v) => LM(G[i])[w] = 0
IsZeroDim(n, G) == ~IsUnit(G) /\ \A v \in 1..n : PurePower(G, v)

\* dimension: largest set of variables no leading monomial lies in
Independent(S, G) == \A i \in 1..Len(G) : \E v \in 1..Len(LM(G[i])) : v \notin S /\ LM(G[i])[v] > 0
IdealDim(n, G) == IF IsUnit(G) THEN -1
                  ELSE Max({Cardinality(S) : S \in {T \in SUBSET (1..n) : Independent(T, G)}})

\* monomials not divisible by a leading monomial (finite iff zero-dimensional)
RECURSIVE StairFrom(_,_,_,_)
StairFrom(n, L, front, acc) ==
  LET nxt == { m \in UNION {{[b EXCEPT ![v] = @ + 1] : v \in 1..n} : b \in front} :
                   ~\E i \in 1..Len(L) : Divides(L[i], m) }
  IN  IF nxt = {} THEN acc ELSE StairFrom(n, L, nxt, acc \cup nxt)
Staircase(n, G) == IF IsUnit(G) THEN {}
                   ELSE StairFrom(n, LeadMonos(G), {MonoOne(n)}, {MonoOne(n)})

---------------------------------------------------------------------------
(* changes of ring *)
\* append k new variables
Extend(k, f) == [i \in 1..Len(f) |-> <<f[i][1], f[i][2] \o [j \in 1..k |-> 0]>>]
\* prepend k new variables
Prepend(k, f) == [i \in 1..Len(f) |-> <<f[i][1], [j \in 1..k |-> 0] \o f[i][2]>>]
DropFirst(k, f) == [i \in 1..Len(f) |-> <<f[i][1], SubSeq(f[i][2], k+1, Len(f[i][2]))>>]
\* the same terms, arranged for another order
Reorder(e, p, f) == PNormal(e, p, f)

\* generators of I \cap K[x_{k+1}, ...], as polynomials in the remaining variables
ElimIdeal(k, p, F) ==
  LET G == RefGB(k, p, F)
      H == SelectSeq(G, LAMBDA g : \A j \in 1..k : LM(g)[j] = 0)
  IN  [i \in 1..Len(H) |-> DropFirst(k, H[i])]

\* I : f^infinity by the Rabinowitsch trick: eliminate t from I + (t*f - 1)
SatIdeal(p, F, f) ==
  LET n  == Len(LM(f))
      tv == [j \in 1..n+1 |-> IF j = 1 THEN 1 ELSE 0]
      Fx == [i \in 1..Len(F) |-> Reorder(1, p, Prepend(1, F[i]))]
      tf == PNormal(1, p, PTermMul(p, FOne(p), tv, Prepend(1, f)) \o <<<<FNeg(p, FOne(p)), MonoOne(n+1)>>>>)
      E  == ElimIdeal(1, p, Append(Fx, tf))
  IN  E                                      \* reduced GB for DRL of the saturation

\* g / f for a polynomial f that divides g
RECURSIVE ExactQuot(_,_,_)
ExactQuot(p, g, f) ==
  IF g = <<>> THEN <<>>
  ELSE LET c == FMul(p, LC(g), FInv(p, LC(f)))
           m == MonoDiv(LM(g), LM(f))
       IN  <<<<c, m>>>> \o ExactQuot(p, PSub(0, p, g, PTermMul(p, c, m, f)), f)

\* I : f through I \cap (f) = elimination of t from t*I + (1-t)*(f)
ColonIdeal(p, F, f) ==
  LET n   == Len(LM(f))
      tv  == [j \in 1..n+1 |-> IF j = 1 THEN 1 ELSE 0]
      one == FOne(p)
      Tm(g, c) == PTermMul(p, c, tv, Prepend(1, g))
      Fx == [i \in 1..Len(F) |-> PNormal(1, p, Tm(F[i], one))]
      fx == PNormal(1, p, Prepend(1, f) \o Tm(f, FNeg(p, one)))
      E  == ElimIdeal(1, p, Append(Fx, fx))
  IN  RefGB(0, p, [i \in 1..Len(E) |-> ExactQuot(p, E[i], f)])
=============================================================================
