------------------------------ MODULE Experts ------------------------------
(* Landmark-expert (constrained local model) optimisation.  In every         *)
(* iteration the experts answer, for each of four landmarks, with a map of   *)
(* responses over a search window; each landmark proposes a displacement     *)
(*   "asm"   the response peak (or, with a wide Gaussian, the Gaussian of    *)
(*           the peak averaged over the window)                              *)
(*   "rlms"  the mean position of the responses weighted by a kernel around  *)
(*           the current landmark                                            *)
(* and the parameters move to the regularised least-squares fit of them.     *)
(* The Gaussians are 2^(-|g|^2): rational.  Three shape models:              *)
(*   "ortho"   orthonormal similarity basis and modes                        *)
(*   "global"  similarity transform on top of orthogonal modes               *)
(*   "skew"    the same with modes that overlap with the similarities        *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Algs, Kinds, Actives, Priors,   \* sets; Priors of booleans
          Starts,          \* sequence of [q |-> 4 ints, b |-> 4 ints]
          H, W, Sharp,     \* window, and whether the peak is taken exactly
          Maps,            \* sequence of H x W integer responses
          Combos,          \* per iteration: sequence of 4-tuples of maps
          Eig,             \* eigenvalues of the four modes
          MaxIters

VARIABLES alg, kind, k, prior, start, p, target, trail, running
vars == <<alg, kind, k, prior, start, p, target, trail, running>>

\* ---- the four-point world
U == <<1, 1, -1, -1>>
Vv == <<1, -1, -1, 1>>
Ww == <<1, -1, 1, -1>>
Inter(a, c) == TLCEval([i \in 1..8 |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE c[i \div 2]])
Vec(n, d, a, c) == TLCEval([i \in 1..8 |-> R(n * Inter(a, c)[i], d)])
Times(n, a) == TLCEval([i \in 1..4 |-> n * a[i]])
O4 == <<0, 0, 0, 0>>
Mean == TLCEval(Vec(1, 1, Times(3, U), Times(4, Vv)))
E == TLCEval(<<Vec(1, 10, Times(3, U), Times(4, Vv)), Vec(1, 10, Times(-4, Vv), Times(3, U)),
       Vec(1, 2, <<1, 1, 1, 1>>, O4), Vec(1, 2, O4, <<1, 1, 1, 1>>)>>)
B0 == TLCEval(<<Vec(1, 10, Times(4, U), Times(-3, Vv)), Vec(1, 10, Times(3, Vv), Times(4, U)),
       Vec(1, 2, Ww, O4), Vec(1, 2, O4, Ww)>>)
BSkew == TLCEval([j \in 1..4 |-> VAdd(VScale(R(3, 5), E[j]), VScale(R(4, 5), B0[j]))])
B == IF kind = "skew" THEN BSkew ELSE B0
\* mean of the discarded eigenvalues
Noise(n) == IF n = 4 THEN Zero ELSE R(ISumSeq(SubSeq(Eig, n + 1, 4)), 4 - n)

Comb(c, A) == TLCEval([i \in 1..8 |-> SumSeq([j \in 1..Len(c) |-> Mul(c[j], A[j][i])])])
Sim(a, c, t1, t2, x) == TLCEval([i \in 1..8 |->
   IF i % 2 = 1 THEN Add(Sub(Mul(a, x[i]), Mul(c, x[i + 1])), t1)
   ELSE Add(Add(Mul(c, x[i - 1]), Mul(a, x[i])), t2)])
UnSim(a, c, t1, t2, x) ==
   LET n == Add(Mul(a, a), Mul(c, c)) IN
   Sim(Div(a, n), Neg(Div(c, n)), Zero, Zero, Sim(One, Zero, Neg(t1), Neg(t2), x))
Ortho == kind = "ortho"
SA(v) == IF Ortho THEN Add(One, Div(v[1], I(10))) ELSE Add(One, v[1])
SC(v) == IF Ortho THEN Div(v[2], I(10)) ELSE v[2]
ST1(v) == IF Ortho THEN Div(v[3], I(2)) ELSE v[3]
ST2(v) == IF Ortho THEN Div(v[4], I(2)) ELSE v[4]
\* parameters -> shape
Instance_(v) == TLCEval(Sim(SA(v), SC(v), ST1(v), ST2(v), VAdd(Mean, Comb(SubSeq(v, 5, Len(v)), B))))
Regular(v) == ~(Num(SA(v)) = 0 /\ Num(SC(v)) = 0)
Shape(t) == TLCEval(Sim(Add(One, R(t.q[1], 2)), R(t.q[2], 2), I(t.q[3]), I(t.q[4]),
                VAdd(Mean, Comb(RV(t.b), B0))))
Pure(t) == \A i \in 1..4 : t.b[i] = 0
\* the parameters the optimisation starts from
Align(x) == TLCEval(LET d == VSub(x, Mean)
                        g == [j \in 1..4 |-> Dot(d, E[j])] IN
   IF Ortho THEN g ELSE <<Div(g[1], I(10)), Div(g[2], I(10)), Div(g[3], I(2)), Div(g[4], I(2))>>)
Fit(x, n) == TLCEval(LET g == Align(x)
                         y == VSub(UnSim(SA(g), SC(g), ST1(g), ST2(g), x), Mean) IN
   [i \in 1..(4 + n) |-> IF i <= 4 THEN g[i] ELSE Dot(y, B[i - 4])])

\* derivative of the shape with respect to the parameters, at the mean: columns
Jac(n) == TLCEval([i \in 1..(4 + n) |->
   IF i > 4 THEN B[i - 4]
   ELSE VScale(IF Ortho THEN One ELSE IF i <= 2 THEN I(10) ELSE I(2), E[i])])
Penalty(n) == TLCEval([i \in 1..(4 + n) |-> IF i <= 4 THEN Zero ELSE Div(Noise(n), I(Eig[i - 4]))])

\* ---- the experts
Off(i, n) == i - 1 - (n \div 2)
G(i, j) == <<Off(i, H), Off(j, W)>>
Sq(u) == u[1] * u[1] + u[2] * u[2]
Cells == (1..H) \X (1..W)
CellAt(n) == <<1 + ((n - 1) \div W), 1 + ((n - 1) % W)>>
\* weighted mean of the window's offsets; the weights are w(cell) 2^(-n(cell))
MeanOff(w, n) ==
  LET f == TLCEval([i \in 1..(H * W) |-> <<w[CellAt(i)], n[CellAt(i)], G(CellAt(i)[1], CellAt(i)[2])>>])
      S == TLCEval(SelectSeq(f, LAMBDA x : x[1] # 0))
      m == CHOOSE a \in {S[i][2] : i \in 1..Len(S)} : \A i \in 1..Len(S) : a <= S[i][2]
      v == TLCEval([i \in 1..Len(S) |-> IF S[i][2] - m > 20 THEN Zero ELSE R(S[i][1], 2 ^ (S[i][2] - m))])
      z == SumSeq(v)
  IN TLCEval(<<Div(SumSeq([i \in 1..Len(S) |-> Mul(v[i], I(S[i][3][1]))]), z),
       Div(SumSeq([i \in 1..Len(S) |-> Mul(v[i], I(S[i][3][2]))]), z)>>)
PeakOf(r) ==   \* the first of the largest responses
  CHOOSE x \in Cells : \A y \in Cells :
    r[x[1]][x[2]] > r[y[1]][y[2]]
    \/ (r[x[1]][x[2]] = r[y[1]][y[2]] /\ (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])))
Asm(r) == TLCEval(LET x == TLCEval(PeakOf(r))
              d == G(x[1], x[2]) IN
  IF Sharp THEN <<I(d[1]), I(d[2])>>
  ELSE MeanOff([y \in Cells |-> 1],
               [y \in Cells |-> Sq(<<G(y[1], y[2])[1] - d[1], G(y[1], y[2])[2] - d[2]>>)]))
Rlms(r) == MeanOff([y \in Cells |-> r[y[1]][y[2]]], [y \in Cells |-> Sq(G(y[1], y[2]))])
AsmTable == TLCEval([m \in 1..Len(Maps) |-> Asm(Maps[m])])
RlmsTable == TLCEval([m \in 1..Len(Maps) |-> IF Sharp THEN Asm(Maps[m]) ELSE Rlms(Maps[m])])
Proposal(a, m) == IF a = "asm" THEN AsmTable[m] ELSE RlmsTable[m]
Displacements(c) == TLCEval([i \in 1..8 |-> Proposal(alg, c[(i + 1) \div 2])[IF i % 2 = 1 THEN 1 ELSE 2]])

\* ---- the step: minimise |e - J dp|^2 + (p + dp)' P (p + dp)
Step(e, v) ==
  LET n == Len(v) - 4
      J == Jac(n)
      P == IF prior THEN Penalty(n) ELSE VZero(4 + n)
      M == TLCEval([i \in 1..(4 + n) |-> [j \in 1..(4 + n) |->
              IF i = j THEN Add(Dot(J[i], J[j]), P[i]) ELSE Dot(J[i], J[j])]])
      r == TLCEval([i \in 1..(4 + n) |-> Sub(Dot(J[i], e), Mul(P[i], v[i]))])
  IN TLCEval(SolveV(M, r))
Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) < 30000 /\ v[i][2] < 3000

Init ==
  /\ alg \in Algs /\ kind \in Kinds /\ k \in Actives /\ prior \in Priors
  /\ start \in 1..Len(Starts)
  /\ (kind # "ortho" => Pure(Starts[start]))
  /\ p = Fit(Shape(Starts[start]), k)
  /\ target = Instance_(p)
  /\ trail = <<>> /\ running = TRUE

Iterate(c) ==
  /\ running /\ Len(trail) < MaxIters
  /\ LET e == Displacements(c)
         dp == Step(e, p)
         v == VAdd(p, dp) IN
     /\ Small(v) /\ Regular(v)
     /\ p' = v
     /\ target' = Instance_(v)
     /\ trail' = Append(trail, [c |-> c, e |-> e, p |-> v])
     /\ running' = (target' # target)
  /\ UNCHANGED <<alg, kind, k, prior, start>>

Next == \E i \in 1..Len(Combos[IF Len(trail) < Len(Combos) THEN Len(trail) + 1 ELSE Len(Combos)]) :
          Iterate(Combos[IF Len(trail) < Len(Combos) THEN Len(trail) + 1 ELSE Len(Combos)][i])
Spec == Init /\ [][Next]_vars

\* ---- properties
InStep == target = Instance_(p)
Last == trail[Len(trail)]
Before == IF Len(trail) = 1 THEN Fit(Shape(Starts[start]), k) ELSE trail[Len(trail) - 1].p
\* the step is the minimiser: the gradient of the regularised cost is zero
Minimiser == trail # <<>> =>
  LET J == Jac(k)
      dp == VSub(p, Before)
      res == TLCEval([i \in 1..8 |-> Sub(Last.e[i], SumSeq([j \in 1..(4 + k) |-> Mul(dp[j], J[j][i])]))]) IN
  \A j \in 1..(4 + k) : Dot(J[j], res) = (IF prior THEN Mul(Penalty(k)[j], p[j]) ELSE Zero)
AtRest == trail # <<>> /\ \A i \in 1..8 : Last.e[i] = Zero
\* experts that respond at the current landmarks leave the fit where it is;
\* with the prior they only shrink the modes (similarities uncoupled)
FixedPoint == AtRest =>
  /\ ~prior => p = Before /\ ~running
  /\ prior /\ kind # "skew" => /\ SubSeq(p, 1, 4) = SubSeq(Before, 1, 4)
                              /\ \A j \in 5..(4 + k) : Le(RAbs(p[j]), RAbs(Before[j]))
\* landmarks that agree on a displacement of the whole shape move it there
Agreement == (trail # <<>> /\ ~prior /\ \A i \in 3..8 : Last.e[i] = Last.e[i - 2]) =>
  target = VAdd(Instance_(Before), Last.e)

Done == ~running \/ Len(trail) = MaxIters
Emit == (Done /\ trail # <<>>) =>
  CSVWrite("%1$s", <<ToJson([alg |-> alg, kind |-> kind, k |-> k, prior |-> prior, start |-> start,
    p0 |-> Fit(Shape(Starts[start]), k), shape0 |-> Instance_(Fit(Shape(Starts[start]), k)),
    trail |-> [i \in 1..Len(trail) |-> [c |-> trail[i].c, p |-> trail[i].p, shape |-> Instance_(trail[i].p)]]])>>, IOEnv.OUT)
=============================================================================
