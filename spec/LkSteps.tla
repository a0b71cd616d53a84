------------------------------ MODULE LkSteps -------------------------------
(* Lucas-Kanade alignment of an image to a template by sums of squares.      *)
(* The warp moves a pixel x of the template to x + sum_q p_q D_q(x), rounded *)
(* to the nearest pixel of the image (black outside).  One iteration moves   *)
(* the parameters to the minimiser of the weighted sum of squares            *)
(*       |I(W(p)) + J d - T|^2,                                              *)
(* the Jacobian being the gradient of                                        *)
(*   "fa"  the image, looked up where the pixel is warped to,                *)
(*   "fc"  the warped image,      "ic"  the template                         *)
(* (the latter two without their outermost pixels) times D; the weights are  *)
(* a convolution over the template.  The cost reported is that of the warped *)
(* image the step started from.                                              *)
EXTENDS SafeRat, Json, IOUtils, CSV

CONSTANTS Algs,          \* subset of {"fa", "fc", "ic"}
          Kernels,       \* set of <<centre, neighbour>>: the convolutions
          Images,        \* sequence of images: channel, row, column
          Template,      \* channel, row, column
          D,             \* parameter, row, column -> <<dy, dx>>
          Starts,        \* sequence of integer parameter vectors
          MaxIters

VARIABLES alg, kernel, img, start, p, trail, costs, running
vars == <<alg, kernel, img, start, p, trail, costs, running>>

NC == Len(Template)
NH == Len(Template[1])
NW == Len(Template[1][1])
NQ == Len(D)
IH == Len(Images[1][1])
IW == Len(Images[1][1][1])
\* pixels of the template, flattened: channel, row, column
NN == NC * NH * NW
Ch(n) == ((n - 1) \div (NH * NW)) + 1
Ro(n) == (((n - 1) \div NW) % NH) + 1
Co(n) == ((n - 1) % NW) + 1
Flat(a) == TLCEval([n \in 1..NN |-> a[Ch(n)][Ro(n)][Co(n)]])

\* central differences, one-sided at the border; doubled
Diff(f, k, n) == IF k = 1 THEN 2 * (f[2] - f[1]) ELSE IF k = n THEN 2 * (f[n] - f[n - 1]) ELSE f[k + 1] - f[k - 1]
GradY(a, c, y, x, h) == Diff([k \in 1..h |-> a[c][k][x]], y, h)
GradX(a, c, y, x, w) == Diff([k \in 1..w |-> a[c][y][k]], x, w)

\* rounding to the nearest pixel
Round(q) == (2 * q[1] + q[2]) \div (2 * q[2])
Where(n) == LET dy == SumSeq([q \in 1..NQ |-> Mul(p[q], I(D[q][Ro(n)][Co(n)][1]))])
                dx == SumSeq([q \in 1..NQ |-> Mul(p[q], I(D[q][Ro(n)][Co(n)][2]))])
            IN <<Ro(n) + Round(dy), Co(n) + Round(dx)>>
\* positions that 32-bit integers can say
Bounded(q) == Ok(q) /\ q[1] > -268435456 /\ q[1] < 268435456 /\ q[2] < 268435456
Tractable(v) == /\ VOk(v)
                /\ \A n \in 1..NN : \A i \in 1..2 :
                     Bounded(SumSeq([q \in 1..NQ |-> Mul(v[q], I(D[q][Ro(n)][Co(n)][i]))]))
Places == TLCEval([n \in 1..NN |-> Where(n)])
In(w) == w[1] \in 1..IH /\ w[2] \in 1..IW

\* everything an iteration needs, computed once
Look ==
  LET pl == Places
      im == Images[img]
      iw == TLCEval([n \in 1..NN |-> IF In(pl[n]) THEN im[Ch(n)][pl[n][1]][pl[n][2]] ELSE 0])
      iw3 == TLCEval([c \in 1..NC |-> [y \in 1..NH |-> [x \in 1..NW |-> iw[((c - 1) * NH + y - 1) * NW + x]]]])
      inner(n) == Ro(n) \in 2..(NH - 1) /\ Co(n) \in 2..(NW - 1)
      gy(n) == CASE alg = "fa" -> IF In(pl[n]) THEN GradY(im, Ch(n), pl[n][1], pl[n][2], IH) ELSE 0
                 [] alg = "fc" -> IF inner(n) THEN GradY(iw3, Ch(n), Ro(n), Co(n), NH) ELSE 0
                 [] alg = "ic" -> IF inner(n) THEN GradY(Template, Ch(n), Ro(n), Co(n), NH) ELSE 0
      gx(n) == CASE alg = "fa" -> IF In(pl[n]) THEN GradX(im, Ch(n), pl[n][1], pl[n][2], IW) ELSE 0
                 [] alg = "fc" -> IF inner(n) THEN GradX(iw3, Ch(n), Ro(n), Co(n), NW) ELSE 0
                 [] alg = "ic" -> IF inner(n) THEN GradX(Template, Ch(n), Ro(n), Co(n), NW) ELSE 0
  IN [e |-> TLCEval([n \in 1..NN |-> iw[n] - Template[Ch(n)][Ro(n)][Co(n)]]),
      \* twice the Jacobian
      J2 |-> TLCEval([q \in 1..NQ |-> [n \in 1..NN |-> gy(n) * D[q][Ro(n)][Co(n)][1] + gx(n) * D[q][Ro(n)][Co(n)][2]]])]

\* circular convolution over rows and columns with (centre, four neighbours)
Wrap(k, n) == ((k + n - 1) % n) + 1
At(v, c, y, x) == v[((c - 1) * NH + Wrap(y, NH) - 1) * NW + Wrap(x, NW)]
Conv(v) == TLCEval([n \in 1..NN |-> LET c == Ch(n) y == Ro(n) x == Co(n) IN
   kernel[1] * v[n] + (IF kernel[2] = 0 THEN 0 ELSE
     kernel[2] * (At(v, c, y - 1, x) + At(v, c, y + 1, x) + At(v, c, y, x - 1) + At(v, c, y, x + 1)))])
RECURSIVE DotI(_, _, _)
DotI(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + DotI(a, b, k - 1)
IDot(a, b) == TLCEval(DotI(a, b, Len(a)))

\* step and cost
Solve(l) ==
  LET KJ == TLCEval([q \in 1..NQ |-> Conv(l.J2[q])]) IN
  \* J = J2/2:  (J2' K J2 / 4) d = - J2' K e / 2
  SolveV(TLCEval([i \in 1..NQ |-> [j \in 1..NQ |-> I(IDot(KJ[i], l.J2[j]))]]),
         TLCEval([i \in 1..NQ |-> I(-2 * IDot(KJ[i], l.e))]))
CostOf(l) == IDot(l.e, Conv(l.e))

Init ==
  /\ alg \in Algs /\ kernel \in Kernels /\ img \in 1..Len(Images) /\ start \in 1..Len(Starts)
  /\ p = RV(Starts[start]) /\ trail = <<p>> /\ costs = <<>> /\ running = TRUE
Iterate ==
  /\ running /\ Len(costs) < MaxIters
  /\ LET l == TLCEval(Look)
         d == TLCEval(Solve(l))
         q == TLCEval(VAdd(p, d)) IN
     /\ VOk(d) /\ Tractable(q)
     /\ p' = q
     /\ trail' = Append(trail, q)
     /\ costs' = Append(costs, CostOf(l))
     /\ running' = (q # p)
  /\ UNCHANGED <<alg, kernel, img, start>>
Next == Iterate
Spec == Init /\ [][Next]_vars

\* ---- properties
TypeOK == Len(trail) = Len(costs) + 1 /\ \A k \in 1..Len(costs) : costs[k] >= 0
\* no residual: the step is zero (and the fit stops)
Settles == (Len(costs) > 0 /\ costs[Len(costs)] = 0) => trail[Len(trail)] = trail[Len(trail) - 1]
\* the gradient of the linearised cost vanishes at the step
Stationary == (running /\ Len(costs) < MaxIters) =>
  LET l == TLCEval(Look)
      d == TLCEval(Solve(l)) IN
  VOk(d) => \A q \in 1..NQ :
     LET g == Add(SumSeq([j \in 1..NQ |-> Mul(d[j], I(IDot(l.J2[q], Conv(l.J2[j]))))]), I(2 * IDot(l.J2[q], Conv(l.e)))) IN
     Ok(g) => g = Zero
Emit == Len(costs) > 0 =>
  CSVWrite("%1$s", <<ToJson([alg |-> alg, kernel |-> kernel, img |-> img, start |-> start, trail |-> trail, costs |-> costs])>>, IOEnv.OUT)
=============================================================================
