----------------------------- MODULE AccelTest ------------------------------
(***************************************************************************)
(* The values of the operators that Java classes override, on the data in  *)
(* the file named by VT_CASES.  vt/accel.py runs it with and without these *)
(* classes and compares what is printed.                                   *)
(***************************************************************************)
EXTENDS Groebner, Solve, Json, IOUtils, TLC

Data == JsonDeserialize(IOEnv.VT_CASES)

Ints(d) == <<BAdd(d.x, d.y), BSub(d.x, d.y), BMul(d.x, d.y), BCmp(d.x, d.y), BCmp(d.x, d.x), BGcd(d.x, d.y), BGcd(BMul(d.x, d.z), BMul(d.y, d.z)),
             BDivExact(BMul(d.x, d.z), d.z), BMod(d.x, d.q), BPow(d.x, d.k)>>
Rats(d) == <<QMake(d.x, d.z), QMake(d.x, BNeg(d.z)), QAdd(d.r, d.s), QAdd(d.r, QNeg(d.r)), QMul(d.r, d.s),
             IF QSign(d.r) # 0 THEN QInv(d.r) ELSE d.r, QCmp(d.r, d.s), QCmp(d.r, d.r)>>
Residues(d) == <<MulMod(d.i, d.j, d.q), IF d.i # 0 THEN InvMod(d.i, d.q) ELSE 0>>
Polys(d) ==
  LET p == d.p
      e == d.e
      f == PNormal(e, p, d.f)
      g == PNormal(e, p, d.g)
      h == PNormal(e, p, d.h)
      G == SelectSeq(<<g, h>>, LAMBDA x : x # <<>>)
  IN  <<f, g, h, PAdd(e, p, f, g), PSub(e, p, f, f), PMul(e, p, f, g), PTermMul(p, d.c, d.m, f), Monic(p, f), NF(e, p, f, G),
        NF(e, p, PMul(e, p, f, g), G), IF f = <<>> \/ g = <<>> THEN <<>> ELSE SPoly(e, p, f, g),
        [i \in 1..Len(d.f) |-> <<MonoCmp(e, d.f[i][2], d.m), Divides(d.f[i][2], d.m), Divides(d.m, d.f[i][2])>>]>>
Unis(d) ==
  LET p == d.p
      u == UTrim(p, d.u)
      v == UTrim(p, d.v)
      w == UTrim(p, d.w)
  IN  <<UAdd(p, u, v), UScale(p, d.c, u), UMul(p, u, v), UEval(p, u, d.c),
        IF v = <<>> THEN <<>> ELSE <<UDivMod(p, u, v), URem(p, UMul(p, u, w), v), UGcd(p, UMul(p, u, v), UMul(p, w, v))>>>>
Reals(d) ==          \* d.a < the root < d.b
  <<UTame(d.u), SturmSeq(d.sq, d.w), SturmSeq(d.sq, <<QOne>>), Query(SturmSeq(d.sq, d.w), d.a, d.b), VarAt(SturmSeq(d.sq, d.w), d.a),
    SignAtRoot(d.sq, d.a, d.b, d.w), SignAtRoot(d.sq, d.t, d.t, d.w), Refine(d.sq, d.a, d.b, d.k)>>
Rows(d) ==
  LET p == d.p
      B == RefGB(0, p, SelectSeq([i \in 1..Len(d.G) |-> PNormal(0, p, d.G[i])], LAMBDA x : x # <<>>))
  IN  <<B, Krylov(d.n, p, B, PNormal(0, p, d.lin))>>

Value(d) == CASE d.what = "ints" -> <<Ints(d), Rats(d), Residues(d)>>
              [] d.what = "polys" -> Polys(d)
              [] d.what = "unis" -> Unis(d)
              [] d.what = "reals" -> Reals(d)
              [] d.what = "rows" -> Rows(d)

VARIABLES c
Init == c = 0
Next == /\ c < Len(Data) /\ c' = c + 1
        /\ PrintT(<<"VALUE", ToString(c'), Data[c'].what, ToString(Value(Data[c']))>>)
Spec == Init /\ [][Next]_c
=============================================================================
