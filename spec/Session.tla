------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* What a user of msolve observes: a polynomial system is put into a file, *)
(* msolve is run on it, with some options, any number of times, and each   *)
(* run writes an answer and ends.                                          *)
(*                                                                         *)
(* The state holds the system, the mathematical truth about it and where   *)
(* the current run is.  An answer is a step of this machine only if it is  *)
(* the right one for the system, whatever the options that only select an  *)
(* algorithm were.  The listed properties are the guards of the answer     *)
(* actions; runs of the real program are checked to be behaviours of this  *)
(* machine by CheckCases.tla.                                              *)
(***************************************************************************)
EXTENDS Groebner, Solve, Reader, TLC

VARIABLES
  phase,    \* "start", "ready", "running", "answered"
  ask,      \* what the current run still has to answer
  sys,      \* the system and the question asked about it
  truth     \* what is true about it, computed from its definition

svars == <<phase, ask, sys, truth>>

NoSys == [want |-> "none"]

\* primes that play no role in the implementation (its primes are below 2^30.3); large systems over
\* the rationals are decided by their images modulo them
AuxPrime == 2147483629
AuxPrime2 == 2147483587

---------------------------------------------------------------------------
(* A system s is a record: n variables, characteristic p, the generators   *)
(* (sequences of terms), e the number of variables to eliminate, want the  *)
(* question:                                                               *)
(*   "gb"     reduced Groebner basis (over Q with e > 0: of the            *)
(*            elimination ideal)                                           *)
(*   "sat"    the basis of the saturation by the last generator            *)
(*   "colon"  the basis of the quotient ideal by the last generator        *)
(*   "nf"     normal forms of the last k generators                        *)
(*   "solve"  what its solutions are: none, infinitely many, a rational    *)
(*            parametrization, isolating boxes of the real ones            *)
(* A system may also be given by its text (s.text, code points), then the  *)
(* characteristic, the variables and the generators are what Reader reads. *)
(* s.facs: <<>>, or the factors of the univariate polynomial of a system  *)
(* in shape position, with their multiplicities.                           *)
(* s.big: a system over the rationals too large for exact reference        *)
(* computations; it is decided by its images modulo the auxiliary primes.  *)

Gens(s) == LET N == [i \in 1..Len(s.gens) |-> PNormal(s.e, s.p, s.gens[i])]
           IN  SelectSeq(N, LAMBDA f : f # <<>>)
ModQ(f, q) == PNormal(0, q, [i \in 1..Len(f) |-> <<FOfQ(q, f[i][1]), f[i][2]>>])
ModGens(s, q) == SelectSeq([i \in 1..Len(s.gens) |-> ModQ(s.gens[i], q)], LAMBDA f : f # <<>>)

ModBasis(G, q) == Now([i \in 1..Len(G) |-> ModQ(G[i], q)])

Truth(s) ==
  CASE s.want = "gb" /\ s.p > 0 -> [gb |-> RefGB(s.e, s.p, Gens(s))]
    [] s.want = "gb" /\ s.p = 0 /\ s.e = 0 -> [gb |-> RefGB(0, AuxPrime, ModGens(s, AuxPrime))]
    [] s.want = "gb" /\ s.p = 0 /\ s.e > 0 -> [gb |-> ElimIdeal(s.e, AuxPrime, ModGens(s, AuxPrime))]
    [] s.want = "sat" -> [gb |-> LET F == Gens(s) IN SatIdeal(s.p, Front(F), Last(F))]
    [] s.want = "colon" -> [gb |-> LET F == Gens(s) IN ColonIdeal(s.p, Front(F), Last(F))]
    [] s.want = "nf" -> [gb |-> RefGB(s.e, s.p, SubSeq(Gens(s), 1, Len(s.gens) - s.k))]
    [] s.want = "solve" /\ s.facs # <<>> -> ShapeTruth(s.n, AuxPrime, Gens(s), s.facs)
    [] s.want = "solve" /\ ~s.big /\ s.facs = <<>> -> SolveTruth(s.n, s.p, Gens(s))
    [] s.want = "solve" /\ s.big /\ s.facs = <<>> -> CountTruth(s.n, AuxPrime, ModGens(s, AuxPrime))
Truth2(s) == IF s.facs # <<>> THEN ShapeTruth(s.n, AuxPrime2, Gens(s), s.facs) ELSE CountTruth(s.n, AuxPrime2, ModGens(s, AuxPrime2))

---------------------------------------------------------------------------
(* guards *)

\* the polynomials of an answer, in the order of the answer
Polys(e, p, B) == [i \in 1..Len(B) |-> PNormal(e, p, B[i])]

\* written in normal form: no zero coefficient, no monomial twice, leading term first
WellWritten(e, p, B) ==
  \A i \in 1..Len(B) : Len(B[i]) > 0 /\
    LET f == PNormal(e, p, B[i]) IN Len(f) = Len(B[i]) /\ f[1][2] = B[i][1][2]

\* the zero ideal is answered by the single polynomial 0
IsZeroAnswer(p, B) == Len(B) = 1 /\ Len(B[1]) = 1 /\ FIsZero(p, B[1][1][1])

OrderOf(s) == IF s.p = 0 \/ s.want # "gb" THEN 0 ELSE s.e

\* coefficients of moderate length (digits in base 10000)
Handy(G) == \A i \in 1..Len(G) : \A k \in 1..Len(G[i]) : Len(G[i][k][1][1]) < 60 /\ Len(G[i][k][1][2]) < 60

BasisRight(s, t, B) ==
  LET e == OrderOf(s)
      p == s.p
  IN  IF IsZeroAnswer(p, B) THEN t.gb = <<>>
      ELSE /\ WellWritten(e, p, B)
           /\ IF p > 0 THEN Polys(e, p, B) = t.gb
              ELSE LET G == [i \in 1..Len(B) |-> Monic(0, PNormal(0, 0, B[i]))]
                   IN  IF s.want = "gb" /\ s.e = 0 /\ Handy(G)
                       THEN /\ RedReduced(0, 0, G)
                            /\ InIdeal(0, 0, G, Gens(s))
                            /\ IsGB(0, 0, G)
                            /\ \/ LeadMonos(G) = LeadMonos(t.gb)
                               \/ LeadMonos(G) = LeadMonos(RefGB(0, AuxPrime2, ModGens(s, AuxPrime2)))
                       ELSE IF s.want = "gb" /\ s.e = 0
                       THEN \* long coefficients: the reduced basis by its images
                            /\ RedReduced(0, 0, G)
                            /\ ModBasis(G, AuxPrime) = t.gb
                            /\ ModBasis(G, AuxPrime2) = RefGB(0, AuxPrime2, ModGens(s, AuxPrime2))
                       ELSE \* an elimination ideal: the reduced basis by its images
                            /\ RedReduced(0, 0, G)
                            /\ ModBasis(G, AuxPrime) = t.gb
                            /\ ModBasis(G, AuxPrime2) = ElimIdeal(s.e, AuxPrime2, ModGens(s, AuxPrime2))

LeadRight(s, t, L) ==
  IF t.gb = <<>> THEN L = <<>>
  ELSE \/ L = LeadMonos(t.gb)
       \/ s.p = 0 /\ s.e = 0 /\ s.want = "gb" /\ L = LeadMonos(RefGB(0, AuxPrime2, ModGens(s, AuxPrime2)))

\* what the comment lines above a basis say
HeaderRight(s, t, h) ==
  /\ h.char = s.p
  /\ h.n = IF s.p = 0 THEN s.n - s.e ELSE s.n
  /\ h.elim = OrderOf(s)
  /\ h.len = Len(t.gb)
  /\ "names" \in DOMAIN s => h.names = SubSeq(s.names, Len(s.names) - h.n + 1, Len(s.names))

NormalFormsRight(s, t, N) ==
  /\ Len(N) = s.k
  /\ \A i \in 1..Len(N) :
        LET f == NF(s.e, s.p, PNormal(s.e, s.p, s.gens[Len(s.gens) - s.k + i]), t.gb)
        IN  f = PNormal(s.e, s.p, N[i])

DimRight(s, t, ok(_)) == ok(t.dim) \/ (s.big /\ ok(Truth2(s).dim))

ParamRight(s, t, r) ==
  /\ ParamForm(s.p, s.n, r)
  /\ IF s.p \in 2..16000 /\ Len(r.names) > s.n
     THEN t.dim = 0 /\ r.deg = t.deg         \* a small field need not have a separating linear form
     ELSE IF ~s.big /\ s.facs = <<>> THEN ParamOver(s.p, s.n, Gens(s), t, r)
     ELSE /\ ParamOver(AuxPrime, s.n, ModGens(s, AuxPrime), t, ParamMod(AuxPrime, r))
          /\ ParamOver(AuxPrime2, s.n, ModGens(s, AuxPrime2), Truth2(s), ParamMod(AuxPrime2, r))

---------------------------------------------------------------------------
(* actions *)
SInit == phase = "start" /\ ask = "" /\ sys = NoSys /\ truth = [gb |-> <<>>]

\* write the file
Load(s)  == /\ phase = "start" /\ phase' = "ready"
            /\ sys' = s /\ truth' = Truth(s) /\ ("ok" \in DOMAIN truth' => truth'.ok) /\ ask' = ""
LoadText(s) ==
  LET r == ReadFile(s.text)
      p == CharVal(r.char)
  IN  /\ r.part # "bad"
      /\ Load([n |-> Len(r.names), p |-> p, e |-> s.e, k |-> s.k, want |-> s.want, big |-> s.big, facs |-> s.facs, width |-> s.width,
               gens |-> Values(p, r.gens), names |-> r.names])
\* start msolve on it
Asks == [gb |-> {"basis", "lead"}, sat |-> {"basis", "lead"}, colon |-> {"basis", "lead"}, nf |-> {"nf"},
         solve |-> {"param", "boxes", "both"}]
Run(a)   == /\ phase = "ready" /\ phase' = "running"
            /\ a \in Asks[sys.want] /\ ask' = a /\ UNCHANGED <<sys, truth>>
Running(a) == phase = "running" /\ ask \in a /\ UNCHANGED sys
Answer(a)  == Running(a) /\ phase' = "answered" /\ UNCHANGED <<ask, truth>>

Header(h)      == Running({"basis", "lead"}) /\ UNCHANGED <<phase, ask, truth>> /\ Now(HeaderRight(sys, truth, h))
Basis(B)       == Answer({"basis"}) /\ Now(BasisRight(sys, truth, B))
\* the same, read from the text of the answer
Residues(p, gens) == p = 0 \/ \A i \in 1..Len(gens) : \A j \in 1..Len(gens[i]) :
                       LET x == gens[i][j] IN ~x.neg /\ x.den = <<>> /\ BCmp(BFromDec(x.num), BFromInt(p)) < 0
BasisText(x)   == LET nm == IF sys.p = 0 THEN SubSeq(sys.names, sys.e + 1, Len(sys.names)) ELSE sys.names
                      r == ReadList(nm, x)
                  IN  r.part # "bad" /\ Residues(sys.p, r.gens) /\ Basis(Values(sys.p, r.gens))
Lead(L)        == Answer({"lead"})  /\ Now(LeadRight(sys, truth, L))
NormalForms(N) == Answer({"nf"})    /\ Now(NormalFormsRight(sys, truth, N))
NoSolution     == Answer(Asks.solve) /\ Now(DimRight(sys, truth, LAMBDA d : d = -1))
Infinite(n)    == Answer(Asks.solve) /\ n = sys.n /\ Now(DimRight(sys, truth, LAMBDA d : d > 0))
Boxes(b)       == Answer({"boxes"}) /\ Now(BoxesRight(sys, truth, b))
\* after a parametrization the coordinates come in its order of the variables
BoxesAfter(b)  == /\ Answer({"rest"})
                  /\ \A k \in 1..Len(b) : Len(b[k]) = sys.n
                  /\ Now(BoxesRight(sys, truth, [k \in 1..Len(b) |-> [i \in 1..sys.n |->
                           b[k][CHOOSE j \in 1..sys.n : truth.ord[j] = i]]]))
\* The parameter is known from now on; a right parametrization also describes the solutions of a large
\* system, for the boxes to come.
Param(r)       == /\ Running({"param", "both"}) /\ Now(ParamRight(sys, truth, r))
                  /\ truth' = [(IF sys.big THEN ParamDesc(truth, sys.n, r) ELSE truth)
                                EXCEPT !.par = r.names[Len(r.names)], !.ord = SelectSeq(r.names, LAMBDA i : i <= sys.n)]
                  /\ IF ask = "both" THEN ask' = "rest" /\ phase' = phase
                     ELSE ask' = ask /\ phase' = "answered"
\* giving up without an answer is allowed only where the options ask for an incomplete method
GaveUp(may)    == Answer({"basis", "lead", "nf", "param", "boxes", "both"}) /\ may
Exit(code)     == /\ phase = "answered" /\ code = 0 /\ phase' = "ready" /\ ask' = ""
                  /\ UNCHANGED <<sys, truth>>
=============================================================================
