------------------------------ MODULE Springs ------------------------------
(* Gauss-Newton optimisation of a pictorial structure: patches seen at the   *)
(* landmarks are compared with their mean through a precision matrix that    *)
(* couples pixels, and the landmarks are tied by springs (a precision matrix *)
(* of the shape) of some stiffness.  A step minimises                        *)
(*    (e + J d)' QA (e + J d) + weight (D (p0 + d))' QD (D (p0 + d))         *)
(* over the sampled pixels, e = seen - mean, J the pixels' gradients (of     *)
(* the seen patches when "f"orward, of the mean patches when "i"nverse)      *)
(* times the movement D of their landmark, p0 the current parameters - those *)
(* of the global similarity (the first four) left out when the springs do    *)
(* not feel it.  The costs reported for a state are e' QA e and              *)
(* weight (s - SBar)' QD (s - SBar).  Seen patches are chosen freely.        *)
EXTENDS SafeRat, Json, IOUtils, CSV

CONSTANTS Directions,    \* subset of {"f", "i"}
          Free,          \* set of booleans: do springs ignore the similarity?
          Weights,       \* set of rationals
          Samplings,     \* sequence of sequences: the pixels of a patch looked at
          Landmarks, Channels, Patch,   \* numbers of them (pixels of a patch)
          Images, Mean,  \* integer vectors: landmark by landmark, channel by channel
          QA,            \* integer matrix over pixels
          D, QD, SBar,   \* over y1, x1, y2, x2..: columns per parameter; springs; rest
          Home,          \* the shape without parameters
          Starts,        \* integer parameter vectors
          MaxIters

VARIABLES dir, free, weight, sampling, start, imgs, p, step, trail, running
vars == <<dir, free, weight, sampling, start, imgs, p, step, trail, running>>

N == Landmarks * Channels * Patch
NP == Len(D[1])
NR == 2 * Landmarks
TakenBy == TLCEval([s \in 1..Len(Samplings) |-> SelectSeq([n \in 1..N |-> n],
            LAMBDA n : \E k \in 1..Len(Samplings[s]) : Samplings[s][k] = ((n - 1) % Patch) + 1)])
Taken == TakenBy[sampling]
Part(n) == ((n - 1) \div (Channels * Patch)) + 1
Img == Images[imgs[Len(imgs)]]
Err(v) == TLCEval([i \in 1..Len(Taken) |-> I(v[Taken[i]] - Mean[Taken[i]])])
GradY(v, n) == v[(n % N) + 1] - v[n]
GradX(v, n) == v[n]
\* rows: sampled pixels
Jacobian(v) == TLCEval([i \in 1..Len(Taken) |-> LET n == Taken[i] IN
   [q \in 1..NP |-> GradY(v, n) * D[2 * Part(n) - 1][q] + GradX(v, n) * D[2 * Part(n)][q]]])
QBy == TLCEval([s \in 1..Len(Samplings) |-> LET T == TakenBy[s] IN
          TLCEval([i \in 1..Len(T) |-> [j \in 1..Len(T) |-> QA[T[i]][T[j]]]])])
Q == QBy[sampling]

RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
IDot(u, v) == ISum([i \in 1..Len(u) |-> u[i] * v[i]])
Col(M, q) == [i \in 1..Len(M) |-> M[i][q]]
IMatVec(M, v) == TLCEval([i \in 1..Len(M) |-> IDot(M[i], v)])
\* D' QD D
Springs == TLCEval(LET QDD == TLCEval([q \in 1..NP |-> IMatVec(QD, Col(D, q))]) IN
   [q \in 1..NP |-> [r \in 1..NP |-> IDot(Col(D, q), QDD[r])]])
P0(x) == TLCEval([q \in 1..NP |-> IF free /\ q <= 4 THEN Zero ELSE x[q]])

Quad(M, x) == Dot(x, MatVec(RM(M), x))
Shape(x) == TLCEval([i \in 1..NR |-> Add(I(Home[i]), Dot(RV(D[i]), x))])
Costs(v, x) == TLCEval(LET a == Quad(Q, Err(v))
                           d == Mul(weight, Quad(QD, VSub(Shape(x), RV(SBar)))) IN
                       [all |-> Add(a, d), patches |-> a, springs |-> d])

\* the step from parameters x, seeing v
Model(v, x) == TLCEval(LET J == Jacobian(IF dir = "f" THEN v ELSE Mean)
                     QJ == TLCEval([q \in 1..NP |-> IMatVec(Q, Col(J, q))])
                     S == Springs
                     H == TLCEval([q \in 1..NP |-> [r \in 1..NP |-> Add(I(IDot(QJ[q], Col(J, r))), Mul(weight, I(S[q][r])))]])
                     e == Err(v)
                     b == TLCEval([q \in 1..NP |-> Add(Dot(RV(QJ[q]), e), Mul(weight, Dot(RV(S[q]), P0(x))))])
                 IN [J |-> J, d |-> SolveV(H, TLCEval([q \in 1..NP |-> Neg(b[q])]))])

Init ==
  /\ dir \in Directions /\ free \in Free /\ weight \in Weights
  /\ sampling \in 1..Len(Samplings)
  /\ start \in 1..Len(Starts)
  /\ \E x \in 1..Len(Images) : imgs = <<x>>
  /\ p = RV(Starts[start])
  /\ trail = <<[p |-> p, costs |-> Costs(Img, p)]>>
  /\ step = Model(Img, p)
  /\ running = TRUE
Next ==
  /\ running /\ Len(trail) <= MaxIters /\ VOk(step.d)
  /\ LET q == TLCEval(VAdd(p, step.d)) IN
     /\ VOk(q)
     /\ \E x \in 1..Len(Images) :
          /\ p' = q
          /\ imgs' = Append(imgs, x)
          /\ trail' = Append(trail, [p |-> q, costs |-> Costs(Images[x], q)])
          /\ running' = (q # p)
          /\ step' = (IF Len(trail) < MaxIters THEN Model(Images[x], q) ELSE [J |-> <<>>, d |-> <<>>])
          /\ UNCHANGED <<dir, free, weight, sampling, start>>
Spec == Init /\ [][Next]_vars

\* ---- properties
\* the gradient of what a step minimises vanishes at it
Stationary == (step.d # <<>> /\ VOk(step.d)) =>
  LET r == VAdd(Err(Img), MatVec(RM(step.J), step.d))
      Qr == MatVec(RM(Q), r)
      t == VAdd(P0(p), step.d) IN
  (VOk(Qr) /\ VOk(t)) =>
     \A q \in 1..NP : LET g == Add(Dot(RV(Col(step.J, q)), Qr), Mul(weight, Dot(RV(Springs[q]), t))) IN
                      Ok(g) => g = Zero
\* patches like the mean ones and springs at rest: nothing moves
AtRest == (step.d # <<>> /\ (\A n \in 1..N : Img[n] = Mean[n]) /\ (\A q \in 1..NP : P0(p)[q] = Zero)) =>
             \A q \in 1..NP : step.d[q] \in {Zero, NaR}
CostsNonNegative == LET k == trail[Len(trail)].costs IN
   /\ k.patches[1] >= 0 /\ k.springs[1] >= 0
   /\ k.all = Add(k.patches, k.springs)

Emit == Len(trail) > 1 =>
  CSVWrite("%1$s", <<ToJson([dir |-> dir, free |-> free, weight |-> weight, sampling |-> sampling,
                             start |-> start, imgs |-> imgs, trail |-> trail])>>, IOEnv.OUT)
=============================================================================
