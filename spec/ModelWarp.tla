----------------------------- MODULE ModelWarp ------------------------------
(* Model-driven warps: a warp whose target is generated by a shape model of   *)
(* ShapeModel.tla and whose source stays at the model mean (the four corners  *)
(* of an 8 x 6 rectangle cut into two triangles).  Target settings, parameter *)
(* updates and compositions go through the model; the warp must follow.       *)
EXTENDS ShapeModel

CONSTANTS EvalPoints   \* integer points of the rectangle <<y, x>>, |y| <= 3, |x| <= 4

\* corners in order (3,4) (3,-4) (-3,-4) (-3,4); the diagonal joins 1 and 3
PSide(x) == 4 * x[1] - 3 * x[2]
\* weights of the corners at x, by solving the affine interpolation exactly:
\* triangle (1,2,3) contains x when 4y >= 3x, else triangle (1,3,4)
WeightsAt(x) ==
  LET y == x[1]
      z == x[2] IN
  TLCEval(IF PSide(x) >= 0
   THEN \* (3,4) = P1, (3,-4) = P2, (-3,-4) = P3
        <<R(z + 4, 8), R(4 * y - 3 * z, 24), R(3 - y, 6), Zero>>
   ELSE \* P1, P3, P4 = (-3,4)
        <<R(y + 3, 6), Zero, R(4 - z, 8), R(3 * z - 4 * y, 24)>>)
WMap(x, t) == TLCEval(LET w == WeightsAt(x) IN
  <<SumSeq([i \in 1..4 |-> Mul(w[i], t[2 * i - 1])]),
    SumSeq([i \in 1..4 |-> Mul(w[i], t[2 * i])])>>)

\* composition with another similarity: exact while only the global parameters
\* are in use (the first-order update of the code is then no approximation)
ParOf(a, c, t1, t2) == IF kind = "ortho"
  THEN <<Mul(I(10), Sub(a, One)), Mul(I(10), c), Mul(I(2), t1), Mul(I(2), t2)>>
  ELSE <<Sub(a, One), c, t1, t2>>
Compose(i) ==
  /\ More /\ kind \in {"ortho", "global"} /\ exact /\ b = Zeros(k)
  /\ Log("compose", i)
  /\ LET g == TLCEval(IF kind = "ortho" THEN RV(QVecs[i]) ELSE VScale(R(1, 10), RV(QVecs[i])))
         a == Sub(Mul(SA(q), SA(g)), Mul(SC(q), SC(g)))
         c == Add(Mul(SA(q), SC(g)), Mul(SC(q), SA(g)))
         t1 == Add(Sub(Mul(SA(q), ST1(g)), Mul(SC(q), ST2(g))), ST1(q))
         t2 == Add(Add(Mul(SC(q), ST1(g)), Mul(SA(q), ST2(g))), ST2(q))
         n == TLCEval(ParOf(a, c, t1, t2)) IN
     SimRegular(n) /\ q' = n /\ target' = Instance_(n, b)
  /\ UNCHANGED <<kind, k, b, exact>>
NextWarp == Next \/ \E i \in 1..Len(QVecs) : Compose(i)
SpecWarp == Init /\ [][NextWarp]_vars

\* the interpolation is a partition of unity with linear precision
Barycentric == \A e \in 1..Len(EvalPoints) :
  LET x == EvalPoints[e]
      w == WeightsAt(x) IN
  /\ SumSeq(w) = One
  /\ \A i \in 1..4 : Num(w[i]) >= 0
  /\ WMap(x, Mean) = RV(x)

\* derivative of the model's target with respect to its parameters: the modes
\* in the current frame, the global part at the mean
DTarget == TLCEval(
   (IF kind = "pdm" THEN <<>>
    ELSE IF kind = "ortho" THEN E
    ELSE [j \in 1..4 |-> VSub(Sim(IF j = 1 THEN I(2) ELSE One, IF j = 2 THEN One ELSE Zero,
                                  IF j = 3 THEN One ELSE Zero, IF j = 4 THEN One ELSE Zero, Mean), Mean)])
   \o [j \in 1..k |-> IF HasQ THEN Sim(SA(q), SC(q), Zero, Zero, B[j]) ELSE B[j]])
\* ... and of the warp at x
DWarp(x) == TLCEval([j \in 1..Len(DTarget) |-> WMap(x, DTarget[j])])

\* the derivative is the difference quotient (everything is linear in b)
Unit(n, j) == [i \in 1..n |-> IF i = j THEN One ELSE Zero]
DerivativeTrue == exact => \A j \in 1..k :
   VSub(Instance_(q, VAdd(b, Unit(k, j))), Instance_(q, b)) = DTarget[j + Len(q)]
GlobalDerivativeAtMean == (exact /\ HasQ) => \A j \in 1..4 :
   VSub(Instance_(VAdd(q, Unit(4, j)), Zeros(k)), Instance_(q, Zeros(k))) = DTarget[j]

EmitWarp == exact => CSVWrite("%1$s", <<ToJson([kind |-> kind, hist |-> hist, k |-> k,
   q |-> q, b |-> b, target |-> target,
   w |-> [e \in 1..Len(EvalPoints) |-> WMap(EvalPoints[e], target)],
   dp |-> [e \in 1..Len(EvalPoints) |-> DWarp(EvalPoints[e])]])>>, IOEnv.OUT)
=============================================================================
