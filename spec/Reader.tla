------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The text of an input file, character by character (code points).        *)
(*                                                                         *)
(* First line: the variables, separated by commata.  Second line: the      *)
(* characteristic.  Then the generators, separated by commata, on any      *)
(* number of lines, blanks anywhere between tokens.  A generator is a sum of   *)
(* terms, a term a product of an optional coefficient a or a/b, first, and *)
(* variables with optional exponents.                                      *)
(*                                                                         *)
(* Put(r, ch) is the transition on one character; a text that is not of    *)
(* this form leads to part "bad".                                          *)
(***************************************************************************)
EXTENDS Num, SequencesExt

\* code points
Lf == 10  Comma == 44  Plus == 43  Minus == 45  Star == 42  Slash == 47  Caret == 94
IsBlank(ch) == ch \in {32, 9, 13, 11, 12}
IsDigit(ch) == ch \in 48..57
IsLetter(ch) == ch \in 65..90 \/ ch \in 97..122 \/ ch = 95
IsWord(ch) == IsDigit(ch) \/ IsLetter(ch)

\* decimal digits, most significant first, to a big integer
RECURSIVE DecGroups(_)
DecGroups(d) ==
  LET V(s) == FoldLeft(LAMBDA a, x : 10*a + x, 0, s)
  IN  IF Len(d) <= 4 THEN <<V(d)>>
      ELSE <<V(SubSeq(d, Len(d)-3, Len(d)))>> \o DecGroups(SubSeq(d, 1, Len(d)-4))
BFromDec(d) == BMake(1, MTrim(DecGroups(d)))

---------------------------------------------------------------------------
NoTerm(n) == [neg |-> FALSE, num |-> <<>>, den |-> <<>>, e |-> [i \in 1..n |-> 0]]

Start == [line |-> "vars", part |-> "begin", names |-> <<>>, word |-> <<>>, char |-> <<>>,
          term |-> NoTerm(0), exp |-> 0, poly |-> <<>>, gens |-> <<>>]

Bad(r) == [r EXCEPT !.part = "bad"]

EndName(r) == IF r.word = <<>> \/ \E i \in 1..Len(r.names) : r.names[i] = r.word THEN Bad(r)
              ELSE [r EXCEPT !.names = Append(@, r.word), !.word = <<>>]

PutVars(r, ch) ==
  CASE IsWord(ch) -> IF r.part = "gap" \/ (r.word = <<>> /\ IsDigit(ch)) THEN Bad(r)
                     ELSE [r EXCEPT !.word = Append(@, ch)]
    [] IsBlank(ch) -> IF r.word = <<>> THEN r ELSE [r EXCEPT !.part = "gap"]
    [] ch = Comma -> [EndName(r) EXCEPT !.part = IF @ = "bad" THEN @ ELSE "begin"]
    [] ch = Lf -> LET q == EndName(r) IN IF q.part = "bad" THEN q ELSE [q EXCEPT !.line = "char", !.part = "begin"]
    [] OTHER -> Bad(r)

PutChar(r, ch) ==
  CASE IsDigit(ch) -> [r EXCEPT !.char = Append(@, ch - 48)]
    [] IsBlank(ch) -> r
    [] ch = Lf -> IF r.char = <<>> THEN Bad(r)
                  ELSE [r EXCEPT !.line = "gens", !.part = "begin", !.term = NoTerm(Len(r.names))]
    [] OTHER -> Bad(r)

\* the factor that ends here
VarNr(r) == SelectInSeq(r.names, LAMBDA v : v = r.word)
EndFactor(r) ==
  CASE r.part = "num" -> [r EXCEPT !.part = "done"]
    [] r.part = "den" -> IF r.term.den = <<>> THEN Bad(r) ELSE [r EXCEPT !.part = "done"]
    [] r.part = "var" -> IF VarNr(r) = 0 THEN Bad(r)
                         ELSE [r EXCEPT !.term.e[VarNr(r)] = @ + 1, !.word = <<>>, !.part = "done"]
    [] r.part = "exp" -> IF r.exp < 0 THEN Bad(r)
                         ELSE [r EXCEPT !.term.e[VarNr(r)] = @ + r.exp, !.word = <<>>, !.part = "done"]
    [] OTHER -> Bad(r)
EndTerm(r) == LET q == EndFactor(r)
              IN  IF q.part = "bad" THEN q
                  ELSE [q EXCEPT !.poly = Append(@, q.term), !.term = NoTerm(Len(q.names)), !.part = "sign"]
\* empty generators (behind the last comma) do not count
EndGen(r) == LET q == IF r.part = "begin" THEN r ELSE EndTerm(r)
             IN  IF q.part = "bad" THEN q
                 ELSE [q EXCEPT !.gens = IF q.poly = <<>> THEN @ ELSE Append(@, q.poly), !.poly = <<>>, !.part = "begin"]

PutGens(r, ch) ==
  CASE IsBlank(ch) \/ ch = Lf -> r
    [] ch = Comma -> EndGen(r)
    [] ch \in {Plus, Minus} ->
         LET q == IF r.part = "begin" THEN [r EXCEPT !.part = "sign"] ELSE EndTerm(r)
         IN  IF q.part = "bad" THEN q ELSE [q EXCEPT !.term.neg = (ch = Minus)]
    [] ch = Star  -> LET q == EndFactor(r) IN IF q.part = "bad" THEN q ELSE [q EXCEPT !.part = "mul"]
    [] ch = Slash -> IF r.part = "num" THEN [r EXCEPT !.part = "den"] ELSE Bad(r)
    [] ch = Caret -> IF r.part = "var" /\ VarNr(r) > 0 THEN [r EXCEPT !.part = "exp", !.exp = -1] ELSE Bad(r)
    [] IsDigit(ch) ->
         CASE r.part \in {"begin", "sign", "num"} -> [r EXCEPT !.part = "num", !.term.num = Append(@, ch - 48)]
           [] r.part = "den" -> [r EXCEPT !.term.den = Append(@, ch - 48)]
           [] r.part = "exp" -> [r EXCEPT !.exp = IF @ < 0 THEN ch - 48 ELSE 10 * @ + ch - 48]
           [] r.part = "var" -> [r EXCEPT !.word = Append(@, ch)]
           [] OTHER -> Bad(r)
    [] IsLetter(ch) ->
         CASE r.part \in {"begin", "sign", "mul"} -> [r EXCEPT !.part = "var", !.word = <<ch>>]
           [] r.part = "var" -> [r EXCEPT !.word = Append(@, ch)]
           [] OTHER -> Bad(r)
    [] OTHER -> Bad(r)

Put(r, ch) == IF r.part = "bad" THEN r
              ELSE CASE r.line = "vars" -> PutVars(r, ch)
                     [] r.line = "char" -> PutChar(r, ch)
                     [] r.line = "gens" -> PutGens(r, ch)

---------------------------------------------------------------------------
\* what has been read
TermVal(p, t) ==
  LET n == IF t.num = <<>> THEN BOne ELSE BFromDec(t.num)
      d == IF t.den = <<>> THEN BOne ELSE BFromDec(t.den)
      q == QMake(IF t.neg THEN BNeg(n) ELSE n, d)
  IN  <<FOfQ(p, q), t.e>>
Values(p, gens) == [i \in 1..Len(gens) |-> [j \in 1..Len(gens[i]) |-> TermVal(p, gens[i][j])]]
CharVal(d) == FoldLeft(LAMBDA a, x : 10*a + x, 0, d)

Complete0(r) == r.part # "bad" /\ r.line = "gens" /\ r.part = "begin"
RECURSIVE PutAll(_,_,_)
PutAll(r, s, i) == IF i > Len(s) THEN r ELSE PutAll(Put(r, s[i]), s, i+1)
ReadFile(text) == LET r == PutAll(Start, text, 1) IN IF r.line = "gens" THEN EndGen(r) ELSE Bad(r)

\* a list of polynomials in known variables, as answers have it: [p1, p2, ...]:
ListBody(text) == LET s == SelectSeq(text, LAMBDA ch : ~IsBlank(ch) /\ ch # Lf) IN
                  IF Len(s) >= 3 /\ s[1] = 91 /\ s[Len(s)-1] = 93 /\ s[Len(s)] = 58 THEN SubSeq(s, 2, Len(s)-2) ELSE <<0>>
ReadList(names, text) ==
  EndGen(PutAll([Start EXCEPT !.line = "gens", !.names = names, !.term = NoTerm(Len(names))], ListBody(text), 1))
=============================================================================
