----------------------------- MODULE CheckCases -----------------------------
(***************************************************************************)
(* Recorded runs of the real program, checked to be behaviours of          *)
(* Session.tla.  The file named by VT_CASES is a sequence of cases, a case *)
(* the sequence of its events.  Every case starts in its own initial       *)
(* state; it is accepted when its last event has been consumed.            *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VT_CASES)

VARIABLES c, l        \* the case and the number of its events consumed

Ev == Cases[c].events
IsEvent(t) == l < Len(Ev) /\ Ev[l+1].t = t /\ l' = l + 1 /\ c' = c

Step ==
  \/ IsEvent("Load")   /\ Load(Ev[l+1].sys)
  \/ IsEvent("LoadText") /\ LoadText(Ev[l+1].sys)
  \/ IsEvent("BasisText") /\ BasisText(Ev[l+1].text)
  \/ IsEvent("Run")    /\ Run(Ev[l+1].ask)
  \/ IsEvent("Header") /\ Header(Ev[l+1])
  \/ IsEvent("Basis")  /\ Basis(Ev[l+1].b)
  \/ IsEvent("Lead")   /\ Lead(Ev[l+1].m)
  \/ IsEvent("NF")     /\ NormalForms(Ev[l+1].b)
  \/ IsEvent("NoSolution") /\ NoSolution
  \/ IsEvent("Infinite")   /\ Infinite(Ev[l+1].n)
  \/ IsEvent("Boxes")  /\ (Boxes(Ev[l+1].b) \/ BoxesAfter(Ev[l+1].b))
  \/ IsEvent("Param")  /\ Param(Ev[l+1].r)
  \/ IsEvent("GaveUp") /\ GaveUp(Ev[l+1].may)
  \/ IsEvent("Exit")   /\ Exit(Ev[l+1].code)

CInit == SInit /\ c \in 1..Len(Cases) /\ l = 0
CNext == Step /\ PrintT(<<"AT", Cases[c].id, l'>>)
              /\ (l' = Len(Ev) => PrintT(<<"ACCEPTED", Cases[c].id, l'>>))
CSpec == CInit /\ [][CNext]_<<svars, c, l>>

\* a case ends between runs
TypeOK == /\ phase \in {"start", "ready", "running", "answered"}
          /\ (l = Len(Ev) => phase = "ready")
=============================================================================
