-------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Linear algebra in K[x]/J for a zero-dimensional J with Groebner basis G *)
(* (java/Lin.java evaluates ReduceRow).                                    *)
(*                                                                         *)
(* A row is a pair <<polynomial in normal form, univariate polynomial>>:   *)
(* the polynomial is the value of the univariate one at t modulo J.        *)
(***************************************************************************)
EXTENDS Poly, Univ

RowFor(rows, f) == \* the row that cancels the first possible term of f: <<row, term>> or <<0, 0>>
  LET h == { <<i, j>> \in (1..Len(rows)) \X (1..Len(f)) : LM(rows[i][1]) = f[j][2] }
  IN  IF h = {} THEN <<0, 0>> ELSE CHOOSE x \in h : \A y \in h : x[2] <= y[2]

RECURSIVE ReduceRow(_,_,_,_)
ReduceRow(p, f, u, rows) ==
  LET x == RowFor(rows, f)
  IN  IF x[1] = 0 THEN <<f, u>>
      ELSE LET r == rows[x[1]]
               c == FNeg(p, FMul(p, f[x[2]][1], FInv(p, LC(r[1]))))
           IN  ReduceRow(p, PAdd(0, p, f, PTermMul(p, c, MonoOne(Len(LM(f))), r[1])),
                         UAdd(p, u, UScale(p, c, r[2])), rows)

\* <<minimal polynomial of t modulo J, rows>>
RECURSIVE KrylovFrom(_,_,_,_,_,_)
KrylovFrom(p, G, t, v, k, rows) ==
  LET r == ReduceRow(p, v, UShift(p, k, <<FOne(p)>>), rows)
  IN  IF r[1] = <<>> THEN <<UMonic(p, r[2]), rows>>
      ELSE KrylovFrom(p, G, t, NF(0, p, PMul(0, p, t, v), G), k+1, Append(rows, r))
Krylov(n, p, G, t) == KrylovFrom(p, G, t, <<<<FOne(p), MonoOne(n)>>>>, 0, <<>>)
MinPoly(n, p, G, t) == Krylov(n, p, G, t)[1]
=============================================================================
