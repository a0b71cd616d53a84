------------------------------ MODULE Unified -------------------------------
(* Optimisers that fit an appearance model and landmark experts together.     *)
(* Four landmarks, an orthonormal shape model with similarity basis E and     *)
(* modes B; the experts propose displacements e_c (the kernel-weighted means  *)
(* of their responses, the kernel being 2^(-|g|^2)), the warped image i is    *)
(* e_a away from the appearance a.  A step adds up both sums of squares:      *)
(*   "alt"  minimises over d, with the appearance fitted to the image,        *)
(*          w |J d - (a - i)|^2 / sigma2 + (1 - w) |Jc d - e_c|^2 / rho2      *)
(*          + [prior] the modes' (p + d)' diag(1/eig) (p + d)                 *)
(*   "po"   the same with the appearance's variation projected out of J and   *)
(*          e_a measured from the mean; both terms count alike, with the      *)
(*          prior the step only goes by the weighted terms                    *)
EXTENDS SafeRat, Json, IOUtils, CSV

CONSTANTS Kinds, Priors, Weights,   \* weights: set of rationals
          K,                        \* number of modes
          Images, Mean, Comps, Sampled, DW, Sigma2,
          Eig, Rho2, Starts, Maps, Plans, MaxIters

VARIABLES kind, prior, w, start, plan, p, c, trail, running
vars == <<kind, prior, w, start, plan, p, c, trail, running>>

N == Len(Mean)
NP == 4 + K
NA == Len(Comps)
NS == Len(Sampled)
Take(v) == TLCEval([i \in 1..NS |-> v[Sampled[i]]])
Am == TLCEval([j \in 1..NA |-> Take(Comps[j])])
Model(x) == TLCEval([n \in 1..N |-> Add(I(Mean[n]), SumSeq([j \in 1..Len(x) |-> Mul(Comps[j][n], x[j])]))])
GradY(v) == TLCEval([n \in 1..N |-> Sub(v[(n % N) + 1], v[n])])
\* how the warped appearance changes with the parameters
Jacobian(v) == TLCEval(LET y == GradY(v) IN
   [q \in 1..NP |-> [i \in 1..NS |-> LET n == Sampled[i] IN
      Add(Mul(y[n], I(DW[1][n][q])), Mul(v[n], I(DW[2][n][q])))]])
Least(cols, e) == TLCEval(LET n == Len(cols) IN
   SolveV(TLCEval([i \in 1..n |-> [j \in 1..n |-> Dot(cols[i], cols[j])]]), TLCEval([i \in 1..n |-> Dot(cols[i], e)])))
FitC(v) == Least(Am, VSub(Take(v), Take(RV(Mean))))
\* without what the appearance components can explain
Out(v) == LET x == Least(Am, v) IN TLCEval([i \in 1..NS |-> Sub(v[i], SumSeq([j \in 1..NA |-> Mul(Am[j][i], x[j])]))])

\* ---- landmarks
Uu == <<1, 1, -1, -1>>
Vv == <<1, -1, -1, 1>>
Ww == <<1, -1, 1, -1>>
O4 == <<0, 0, 0, 0>>
Times(n, a) == TLCEval([i \in 1..4 |-> n * a[i]])
Vec(d, a, b) == TLCEval([i \in 1..8 |-> R(IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE b[i \div 2], d)])
E == TLCEval(<<Vec(10, Times(3, Uu), Times(4, Vv)), Vec(10, Times(-4, Vv), Times(3, Uu)), Vec(2, <<1, 1, 1, 1>>, O4), Vec(2, O4, <<1, 1, 1, 1>>)>>)
B == TLCEval(<<Vec(10, Times(4, Uu), Times(-3, Vv)), Vec(10, Times(3, Vv), Times(4, Uu)), Vec(2, Ww, O4), Vec(2, O4, Ww)>>)
Jc == TLCEval([i \in 1..NP |-> IF i <= 4 THEN E[i] ELSE B[i - 4]])

\* kernel-weighted mean of a 3 x 3 response
Propose(r) ==
  LET k(y, x) == r[y][x] * 2 ^ (2 - (y - 2) * (y - 2) - (x - 2) * (x - 2))
      cells == [n \in 1..9 |-> <<1 + ((n - 1) \div 3), 1 + ((n - 1) % 3)>>]
      s(f(_)) == SumSeq([n \in 1..9 |-> I(f(cells[n]))])
      z == s(LAMBDA x : k(x[1], x[2]))
  IN <<Div(s(LAMBDA x : k(x[1], x[2]) * (x[1] - 2)), z), Div(s(LAMBDA x : k(x[1], x[2]) * (x[2] - 2)), z)>>
Table == TLCEval([m \in 1..Len(Maps) |-> Propose(Maps[m])])
\* plan: per visit, the image and the four responses
At == Plans[plan][IF Len(trail) < Len(Plans[plan]) THEN Len(trail) ELSE Len(Plans[plan])]
Img == RV(Images[At.img])
Ec == TLCEval([i \in 1..8 |-> Table[At.maps[(i + 1) \div 2]][IF i % 2 = 1 THEN 1 ELSE 2]])
Pen == TLCEval([q \in 1..NP |-> IF q <= 4 \/ ~prior THEN Zero ELSE Inv(I(Eig[q - 4]))])

\* least squares of the two terms: weights on the matrix and on the right-hand side
Both(J, ea, ma, mc, ra, rc) ==
  SolveV(TLCEval([i \in 1..NP |-> [j \in 1..NP |->
            Add(IF i = j THEN Pen[i] ELSE Zero, Add(Mul(ma, Dot(J[i], J[j])), Mul(mc, Dot(Jc[i], Jc[j]))))]]),
         TLCEval([i \in 1..NP |-> Sub(Add(Mul(ra, Dot(J[i], ea)), Mul(rc, Dot(Jc[i], Ec))), Mul(Pen[i], p[i]))]))
Step ==
  LET v == Sub(One, w)
      s == Inv(Sigma2)
      r == Inv(Rho2) IN
  IF kind = "alt"
  THEN Both(Jacobian(Model(c)), VSub(Take(Model(c)), Take(Img)), Mul(w, s), Mul(v, r), Mul(w, s), Mul(v, r))
  ELSE LET J == Jacobian(RV(Mean))
           P == TLCEval([q \in 1..NP |-> Out(J[q])]) IN
       Both(P, VSub(Take(RV(Mean)), Take(Img)), s, r, IF prior THEN Mul(w, s) ELSE s, IF prior THEN Mul(v, r) ELSE r)

Init ==
  /\ kind \in Kinds /\ prior \in Priors /\ w \in Weights /\ start \in 1..Len(Starts) /\ plan \in 1..Len(Plans)
  /\ p = TLCEval([i \in 1..NP |-> IF i <= 2 THEN Zero ELSE IF i <= 4 THEN I(2 * Starts[start].t[i - 2]) ELSE I(Starts[start].b[i - 4])])
  /\ c = (IF kind = "alt" THEN FitC(RV(Images[Plans[plan][1].img])) ELSE <<>>)
  /\ VOk(c)
  /\ trail = <<[p |-> p, c |-> c]>>
  /\ running = TRUE
Next ==
  /\ running /\ Len(trail) <= MaxIters
  /\ LET d == TLCEval(Step)
         q == TLCEval(VAdd(p, d))
         t2 == Len(trail) + 1
         a2 == Plans[plan][IF t2 < Len(Plans[plan]) THEN t2 ELSE Len(Plans[plan])]
         c2 == TLCEval(IF kind = "alt" THEN FitC(RV(Images[a2.img])) ELSE <<>>) IN
     /\ VOk(d) /\ VOk(q) /\ VOk(c2)
     /\ p' = q /\ c' = c2
     /\ trail' = Append(trail, [p |-> q, c |-> c2])
     /\ running' = (q # p)
  /\ UNCHANGED <<kind, prior, w, start, plan>>
Spec == Init /\ [][Next]_vars

\* ---- properties
Quiet == /\ \A i \in 1..8 : Ec[i] = Zero
         /\ LET e == VSub(Take(Model(c)), Take(Img)) IN \A i \in 1..NS : e[i] = Zero
\* experts and image that are content leave the shape where it is; the prior
\* pulls on the modes only
Content == (Len(trail) <= MaxIters /\ Quiet /\ ~prior) => LET d == Step IN VOk(d) => \A q \in 1..NP : d[q] = Zero
Emit == Len(trail) > 1 =>
  CSVWrite("%1$s", <<ToJson([kind |-> kind, prior |-> prior, w |-> w, start |-> start, plan |-> plan, trail |-> trail])>>, IOEnv.OUT)
=============================================================================
