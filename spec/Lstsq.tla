------------------------------- MODULE Lstsq -------------------------------
(* Gauss-Newton optimisation of shape (and appearance) parameters.  An       *)
(* iteration looks at the warped image i, linearises its difference from the *)
(* model image a(c) = mean + A c in the parameters (the pixels' gradients    *)
(* times the warp's derivative: of the image when "f"orward, of the model    *)
(* image when "i"nverse) and moves to the minimiser of what its kind of      *)
(* optimiser promises to minimise, always over the sampled pixels:           *)
(*   "po"  |i + J d - mean - A c|^2 over d, for the best c (projected out)   *)
(*   "sim" the same over d and c together, starting from the current c       *)
(*   "alt" over c with the previous d, then over d with the new c            *)
(*   "mod" over d with c fitted to the image                                 *)
(*   "wib" over d as "po", c following                                       *)
(*   "atm" no appearance variation: a = mean                                 *)
(* With the prior, also the penalty on the new parameters: the shape modes   *)
(* (and the appearance where it is estimated together), never the first      *)
(* four parameters.  Warped images are chosen freely.                        *)
EXTENDS SafeRat, Json, IOUtils, CSV

CONSTANTS Kinds,        \* set of the names above
          Directions,   \* subset of {"f", "i"}
          Priors,       \* set of booleans
          Images,       \* sequence of integer images
          Mean,         \* integer image
          Comps,        \* appearance components: sequence of sequences of <<n, d>>
          Sampled,      \* sequence of sampled pixels
          DW,           \* two matrices pixels x parameters
          Starts,       \* sequence of integer parameter vectors
          EigA, NoiseA, \* appearance eigenvalues (rational), noise variance
          EigS, NoiseS, \* shape
          MaxIters

VARIABLES kind, dir, prior, start, imgs, p, c, jd, trail, running
vars == <<kind, dir, prior, start, imgs, p, c, jd, trail, running>>

N == Len(Mean)
NP == Len(DW[1][1])
NA == Len(Comps)
NS == Len(Sampled)
Take(v) == TLCEval([i \in 1..NS |-> v[Sampled[i]]])
Am == TLCEval([j \in 1..NA |-> Take(Comps[j])])
Model(w) == TLCEval([n \in 1..N |-> Add(I(Mean[n]), SumSeq([j \in 1..Len(w) |-> Mul(Comps[j][n], w[j])]))])
\* gradients of an image: differences with the next pixel; the pixel itself
GradY(v) == TLCEval([n \in 1..N |-> Sub(v[(n % N) + 1], v[n])])
GradX(v) == v
\* Jacobian of the warped pixels: columns over the sampled pixels
Jacobian(v) == TLCEval(LET y == GradY(v)
                           x == GradX(v)
                           s == IF dir = "f" THEN One ELSE I(-1) IN
   [q \in 1..NP |-> [i \in 1..NS |-> LET n == Sampled[i] IN
      Mul(s, Add(Mul(y[n], I(DW[1][n][q])), Mul(x[n], I(DW[2][n][q]))))]])
Sgn == IF dir = "f" THEN One ELSE I(-1)

NoiseS1 == IF NoiseS = Zero THEN One ELSE NoiseS
S2 == IF kind = "atm" THEN Inv(NoiseS1) ELSE Div(NoiseA, NoiseS1)
PenS == TLCEval([q \in 1..NP |-> IF q <= 4 \/ ~prior THEN Zero ELSE Div(S2, EigS[q - 4])])
PenA == TLCEval([j \in 1..NA |-> IF ~prior THEN Zero ELSE Div(S2, EigA[j])])

\* minimise |e + sum_k x_k col_k|^2 + sum_k pen_k (at_k + x_k)^2
Least(cols, e, pen, at) == TLCEval(LET n == Len(cols) IN
   IF n = 0 THEN <<>>
   ELSE SolveV(TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Add(Dot(cols[i], cols[j]), pen[i]) ELSE Dot(cols[i], cols[j])]]),
          TLCEval([i \in 1..n |-> Neg(Add(Dot(cols[i], e), Mul(pen[i], at[i])))])))
NegA == TLCEval([j \in 1..NA |-> VScale(I(-1), Am[j])])
\* the appearance parameters that fit an image best
FitC(v) == Least(NegA, VSub(Take(v), Take(RV(Mean))), VZero(NA), VZero(NA))
Residual(v, w) == VSub(Take(v), Take(Model(w)))
\* what is reported as the cost of being at an image with appearance w
Cost(v, w) ==
  LET r == IF kind \in {"po", "wib"} THEN Residual(v, FitC(v)) ELSE Residual(v, w) IN Dot(r, r)

HasC == kind \notin {"po", "atm"}
C0(v) == IF HasC THEN FitC(v) ELSE IF kind = "po" THEN VZero(NA) ELSE <<>>
Img == RV(Images[imgs[Len(imgs)]])

\* J d of a step: the shape's columns weighted
JD(J, d) == TLCEval([i \in 1..NS |-> SumSeq([q \in 1..NP |-> Mul(J[q][i], d[q])])])
AC(d) == TLCEval([i \in 1..NS |-> SumSeq([j \in 1..NA |-> Mul(Am[j][i], d[j])])])
At == VScale(Sgn, p)
\* [d: shape step, c: appearance parameters after it (before a new image)]
Step ==
  LET J == Jacobian(IF dir = "f" THEN Img ELSE Model(IF HasC THEN c ELSE VZero(NA))) IN
  CASE kind = "atm" -> [J |-> J, d |-> Least(J, Residual(Img, <<>>), PenS, At), c |-> <<>>]
    [] kind \in {"po", "wib"} ->
         LET x == Least(J \o NegA, Residual(Img, VZero(NA)), PenS \o VZero(NA), At \o VZero(NA)) IN
         [J |-> J, d |-> SubSeq(x, 1, NP), c |-> c]
    [] kind = "sim" ->
         LET x == Least(J \o NegA, Residual(Img, c), PenS \o PenA, At \o c) IN
         [J |-> J, d |-> SubSeq(x, 1, NP), c |-> VAdd(c, SubSeq(x, NP + 1, NP + NA))]
    [] kind = "alt" ->
         LET e == Residual(Img, c)
             dc == Least(NegA, VAdd(e, jd), PenA, c)
         IN [J |-> J, d |-> Least(J, VSub(e, AC(dc)), PenS, At), c |-> VAdd(c, dc)]
    [] kind = "mod" -> [J |-> J, d |-> Least(J, Residual(Img, c), PenS, At), c |-> c]

Init ==
  /\ kind \in Kinds /\ dir \in Directions /\ prior \in Priors
  /\ start \in 1..Len(Starts)
  /\ \E x \in 1..Len(Images) : imgs = <<x>>
  /\ p = RV(Starts[start])
  /\ c = C0(Img) /\ VOk(c)
  /\ jd = VZero(NS)
  /\ trail = <<[p |-> p, c |-> c, cost |-> Cost(Img, c)]>>
  /\ running = TRUE

Iterate(s, q, x) ==
  LET v == RV(Images[x])
      w == TLCEval(CASE kind = "mod" -> FitC(v)
             [] kind = "wib" -> VAdd(c, Least(NegA, VAdd(Residual(v, c), JD(s.J, s.d)), VZero(NA), VZero(NA)))
             [] OTHER -> s.c)
      k == Cost(v, w) IN
  /\ VOk(w) /\ Ok(k)
  /\ p' = q /\ c' = w
  /\ jd' = (IF kind = "alt" THEN JD(s.J, s.d) ELSE jd)
  /\ imgs' = Append(imgs, x)
  /\ trail' = Append(trail, [p |-> q, c |-> w, cost |-> k])
  /\ running' = (q # p)
  /\ UNCHANGED <<kind, dir, prior, start>>
Next ==
  /\ running /\ Len(trail) <= MaxIters
  /\ LET s == TLCEval(Step)
         q == TLCEval(VAdd(p, VScale(Sgn, s.d))) IN
     /\ VOk(q) /\ VOk(JD(s.J, s.d))
     /\ \E x \in 1..Len(Images) : Iterate(s, q, x)
Spec == Init /\ [][Next]_vars

\* ---- properties
First == Len(imgs) = 1
\* an image the model reproduces is a fixed point (without the prior)
Explained == LET r == IF kind = "atm" THEN Residual(Img, <<>>) ELSE Residual(Img, FitC(Img)) IN \A i \in 1..NS : r[i] = Zero
FixedPoint == (~prior /\ First /\ Explained /\ Ok(Step.d[1])) => \A q \in 1..NP : Step.d[q] = Zero
\* the gradient of the penalised cost vanishes at the step
Stationary == Len(trail) <= MaxIters =>
  LET s == TLCEval(Step)
      r == CASE kind = "atm" -> VAdd(Residual(Img, <<>>), JD(s.J, s.d))
             [] kind = "sim" -> VAdd(Residual(Img, s.c), JD(s.J, s.d))
             [] kind = "alt" -> VAdd(Residual(Img, s.c), JD(s.J, s.d))
             [] kind = "mod" -> VAdd(Residual(Img, c), JD(s.J, s.d))
             [] OTHER -> LET e == VAdd(Residual(Img, VZero(NA)), JD(s.J, s.d)) IN
                         VSub(e, AC(Least(NegA, e, VZero(NA), VZero(NA)))) IN
  (VOk(s.d) /\ VOk(r)) =>
  /\ \A q \in 1..NP : LET g == Add(Dot(s.J[q], r), Mul(PenS[q], Add(At[q], s.d[q]))) IN Ok(g) => g = Zero
  /\ kind \in {"po", "wib"} => \A j \in 1..NA : LET g == Dot(Am[j], r) IN Ok(g) => g = Zero
  /\ kind = "sim" => \A j \in 1..NA : LET g == Sub(Mul(PenA[j], s.c[j]), Dot(Am[j], r)) IN Ok(g) => g = Zero
\* the true parameters keep an explained image at cost zero
CostNonNegative == trail[Len(trail)].cost[1] >= 0

Emit == Len(trail) > 1 =>
  CSVWrite("%1$s", <<ToJson([kind |-> kind, dir |-> dir, prior |-> prior, start |-> start, imgs |-> imgs, trail |-> trail])>>, IOEnv.OUT)
=============================================================================
