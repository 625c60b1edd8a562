------------------------------- MODULE PivotRace -------------------------------
(* How the threads of the parallel linear algebra (neogb/la_ff_*.c) share the table of pivots: each reduces a row of its own by the
   pivots it sees while walking over the columns, and installs what is left by compare-and-swap; if another thread was faster, the row is
   reduced further. Whatever the schedule, the pivots span what the rows span, one for each leading column. Rows over the field of Q
   elements, Q prime. Retry = FALSE (a row that came too late is dropped), Atomic = FALSE (test, then write) and Early = FALSE (a row is
   made monic after it was installed, not before) are the classical mistakes; TLC has to refute them. *)
EXTENDS Naturals, FiniteSets
CONSTANTS N, T, Q, Retry, Atomic, Early
VARIABLES rows, pivs, cur, pos, pc
vars == <<rows, pivs, cur, pos, pc>>

Cols == 1 .. N
Row == [Cols -> 0 .. (Q - 1)]
Zero == [i \in Cols |-> 0]
None == [i \in Cols |-> Q]
AddMul(a, c, b) == [i \in Cols |-> (a[i] + c * b[i]) % Q]
Lead(a) == CHOOSE i \in Cols : a[i] # 0 /\ \A j \in 1 .. (i - 1) : a[j] = 0
Inv(c) == CHOOSE d \in 1 .. (Q - 1) : (c * d) % Q = 1
Monic(a) == LET d == Inv(a[Lead(a)]) IN [i \in Cols |-> (d * a[i]) % Q]

RECURSIVE Span(_)
Span(S) == IF S = {} THEN {Zero}
           ELSE LET a == CHOOSE a \in S : TRUE
                    R == Span(S \ {a})
                IN  {AddMul(b, c, a) : b \in R, c \in 0 .. (Q - 1)}

Init == /\ rows \in [T -> Row]
        /\ pivs = [i \in Cols |-> None]
        /\ cur = rows
        /\ pos = [t \in T |-> 1]
        /\ pc = [t \in T |-> "walk"]

(* one column: read the pivot there and reduce *)
Walk(t) == /\ pc[t] = "walk"
           /\ pos[t] <= N
           /\ LET i == pos[t]
              IN  cur' = IF cur[t][i] # 0 /\ pivs[i] # None      \* pivots are taken to be monic
                         THEN [cur EXCEPT ![t] = [AddMul(cur[t], Q - cur[t][i], pivs[i]) EXCEPT ![i] = 0]] ELSE cur
           /\ pos' = [pos EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<rows, pivs, pc>>

Walked(t) == /\ pc[t] = "walk"
             /\ pos[t] > N
             /\ pc' = [pc EXCEPT ![t] = IF cur[t] = Zero THEN "done" ELSE "swap"]
             /\ cur' = IF Early /\ cur[t] # Zero THEN [cur EXCEPT ![t] = Monic(cur[t])] ELSE cur
             /\ UNCHANGED <<rows, pivs, pos>>

Failed(t) == IF Retry THEN /\ pc' = [pc EXCEPT ![t] = "walk"]
                           /\ pos' = [pos EXCEPT ![t] = Lead(cur[t])]
             ELSE /\ pc' = [pc EXCEPT ![t] = "done"]
                  /\ UNCHANGED pos

Swap(t) == /\ pc[t] = "swap"
           /\ LET i == Lead(cur[t])
              IN  IF pivs[i] # None THEN Failed(t) /\ UNCHANGED pivs
                  ELSE IF Atomic THEN /\ pivs' = [pivs EXCEPT ![i] = cur[t]]
                                      /\ pc' = [pc EXCEPT ![t] = IF Early THEN "done" ELSE "norm"]
                                      /\ UNCHANGED pos
                  ELSE /\ pc' = [pc EXCEPT ![t] = "write"]
                       /\ UNCHANGED <<pivs, pos>>
           /\ UNCHANGED <<rows, cur>>

Write(t) == /\ pc[t] = "write"
            /\ pivs' = [pivs EXCEPT ![Lead(cur[t])] = cur[t]]
            /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ UNCHANGED <<rows, cur, pos>>

Norm(t) == /\ pc[t] = "norm"
           /\ pivs' = [pivs EXCEPT ![Lead(cur[t])] = Monic(cur[t])]
           /\ pc' = [pc EXCEPT ![t] = "done"]
           /\ UNCHANGED <<rows, cur, pos>>

Step(t) == Walk(t) \/ Walked(t) \/ Swap(t) \/ Write(t) \/ Norm(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

Pivots == {pivs[i] : i \in Cols} \ {None}
Echelon == \A i \in Cols : pivs[i] # None => pivs[i] # Zero /\ Lead(pivs[i]) = i
Sound == \A a \in Pivots : a \in Span({rows[t] : t \in T})
Complete == (\A t \in T : pc[t] = "done") => Span(Pivots) = Span({rows[t] : t \in T})
Terminates == <>(\A t \in T : pc[t] = "done")
================================================================================
