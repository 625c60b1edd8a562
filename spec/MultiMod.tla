------------------------------ MODULE MultiMod ------------------------------
(***************************************************************************)
(* Computing over the rationals by images modulo primes, as a protocol: a  *)
(* first prime is drawn and a trace learnt with it; further primes are     *)
(* drawn and the trace is applied; the images that fit are collected, and  *)
(* a rational candidate is accepted when further images confirm it.        *)
(*                                                                         *)
(* The environment decides what a drawn prime is like:                     *)
(*   "good"        its image is that of the rational answer                *)
(*   "degenerate"  it reduces the system to one of another shape           *)
(*   "fake"        of the right shape, but its image agrees with that of a *)
(*                 wrong, simpler rational candidate                       *)
(* A degenerate image fits a trace learnt with a degenerate prime only.    *)
(*                                                                         *)
(* Checked: with at most Budget primes against it the protocol gives the   *)
(* right answer, and it ends.  The draws of its behaviours are replayed    *)
(* into the real program (property C13): systems are constructed that make *)
(* the primes it draws good, degenerate and fake as prescribed.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Need,      \* images that determine the true answer
          Budget,    \* primes that are not good
          Window     \* only the first primes drawn may be such

VARIABLES phase, draws, learnt, images, full, seen, napplied, nbad
vars == <<phase, draws, learnt, images, full, seen, napplied, nbad>>

Kinds == {"good", "degenerate", "fake"}
NotGood(s) == Cardinality({i \in 1..Len(s) : s[i] # "good"})

\* A candidate is confirmed in two steps: one image is compared with one
\* coefficient of it, the witness, and the next one with all of it.  A fake
\* image that agrees with a candidate made of fakes in the second step goes
\* unnoticed when the witness does not tell them apart.
Unnoticed(k) == /\ k = "fake" /\ phase = "apply" /\ ~seen
                /\ Len(images) = 2 /\ images[1] = "fake"
MayDraw(k) == \/ k = "good"
              \/ Len(draws) < Window /\ NotGood(draws) < Budget /\ ~Unnoticed(k)
Draw(k) == MayDraw(k) /\ draws' = IF Len(draws) < Window THEN Append(draws, k) ELSE draws

Shape(k) == IF k = "degenerate" THEN "degenerate" ELSE "right"

\* what the images collected determine
AllOf(s, k) == \A i \in 1..Len(s) : s[i] = k
Candidate(s) == IF s = <<>> THEN "none"
                ELSE IF AllOf(s, "fake") THEN "fake"
                ELSE IF AllOf(s, "degenerate") THEN (IF Len(s) >= Need THEN "degenerate" ELSE "none")
                ELSE IF Len(s) >= Need THEN "true" ELSE "none"
Confirms(c, k) == CASE c = "true" -> k # "degenerate"       \* fakes are images of the true answer, too
                    [] c = "fake" -> k = "fake"
                    [] c = "degenerate" -> k = "degenerate"
                    [] OTHER -> FALSE

Init == /\ phase = "learn" /\ draws = <<>> /\ learnt = "none" /\ images = <<>>
        /\ full = "none" /\ seen \in BOOLEAN /\ napplied = 0 /\ nbad = 0

Learn(k) == /\ phase = "learn" /\ Draw(k)
            /\ learnt' = Shape(k) /\ phase' = "apply"
            /\ images' = <<>> /\ full' = "none" /\ napplied' = 0 /\ nbad' = 0
            /\ UNCHANGED seen

Accept(k) == /\ phase = "apply" /\ Draw(k) /\ Shape(k) = learnt
             /\ napplied' = napplied + 1 /\ UNCHANGED <<learnt, nbad, seen>>
             /\ images' = IF Len(images) < Need + Budget THEN Append(images, k) ELSE images
             /\ phase' = IF Confirms(full, k) THEN "done" ELSE "apply"
             /\ full' = IF full # "none" THEN (IF Confirms(full, k) THEN full ELSE "none")
                        ELSE IF ~seen \/ Confirms(Candidate(images), k) THEN Candidate(images) ELSE "none"

\* an image that does not fit; when most do not, the trace is to blame
Reject(k) == /\ phase = "apply" /\ Draw(k) /\ Shape(k) # learnt
             /\ napplied' = napplied + 1 /\ nbad' = nbad + 1
             /\ phase' = IF 2 * (nbad + 1) > napplied + 1 THEN "learn" ELSE "apply"
             /\ UNCHANGED <<learnt, images, full, seen>>

Done == phase = "done" /\ UNCHANGED vars

Next == (\E k \in Kinds : Learn(k) \/ Accept(k) \/ Reject(k)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Right == phase = "done" => learnt = "right" /\ full = "true"
Ends  == <>(phase = "done")
Small == napplied <= Window + 2 * Need + 2 + Budget + 2

\* behaviours to replay, for systems whose witness may be blind
Emit == (phase = "done" /\ ~seen) => PrintT(<<"PATTERN", draws>>)
=============================================================================
