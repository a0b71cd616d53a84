------------------------------ MODULE Regress -------------------------------
(* Regression on integer data, exactly.  Samples (rows of X and Y) arrive in  *)
(* batches; the incremental regressor keeps the inverse covariance V and the  *)
(* coefficients W up to date with the Woodbury identity, and what it holds    *)
(* must be the solution of the whole problem after every batch.               *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Rows,      \* sequence of [x |-> <<..>>, y |-> <<..>>] integer samples
          Kinds,     \* "direct" (ridge), "indirect", "ols", "opp"
          Alphas, Alphas2,   \* sets of rationals <<n, d>>
          MaxFirst, MaxBatch, MaxTotal

VARIABLES kind, alpha, alpha2, bias, bat, V, W
vars == <<kind, alpha, alpha2, bias, bat, V, W>>

Inputs(b) == [i \in 1..Len(b) |->
   IF kind = "indirect" THEN RV(Rows[b[i]].y)
   ELSE RV(Rows[b[i]].x) \o (IF bias THEN <<One>> ELSE <<>>)]
Outputs(b) == [i \in 1..Len(b) |->
   IF kind = "indirect" THEN RV(Rows[b[i]].x) ELSE RV(Rows[b[i]].y)]
All == FlattenSeq_(bat)
D == Len(Inputs(<<1>>)[1])
Gram(A) == MatMul(Tr(A), A)
Cov(b) == LET A == Inputs(b) IN MAdd(Gram(A), MScale(alpha, Ident(D)))
Cross(b) == MatMul(Tr(Inputs(b)), Outputs(b))
Regular(M) == Num(Det(M)) # 0

\* the indirect regressor inverts the solution with the roles exchanged (and can
\* do so only while that solution is invertible)
JJof(w) == MAdd(MatMul(w, Tr(w)), MScale(alpha2, Ident(Len(w))))
JJ == JJof(W)
CanInvert(w) == kind = "indirect" => Regular(JJof(w))

Init == /\ kind \in Kinds /\ alpha \in Alphas /\ alpha2 \in Alphas2 /\ bias \in BOOLEAN
        /\ (kind = "indirect") => ~bias
        /\ (kind # "indirect") => alpha2 = Zero
        /\ (kind \in {"ols", "opp"}) => alpha = Zero
        /\ bat = <<>> /\ V = <<>> /\ W = <<>>
\* (samples within a batch in non-decreasing order: the problem is symmetric in
\* them; the batches themselves come in every order)
Batches(m) == {b \in UNION {[1..k -> 1..Len(Rows)] : k \in 1..m} :
                 \A i \in 1..(Len(b) - 1) : b[i] <= b[i + 1]}
Train == /\ bat = <<>>
         /\ \E b \in Batches(MaxFirst) :
              /\ (kind # "opp" => Regular(Cov(b)))
              /\ bat' = <<b>>
              /\ IF kind = "opp" THEN V' = Cross(b) /\ W' = <<>>
                 ELSE LET C == TLCEval(Cov(b))
                          w == TLCEval(SolveM(C, Cross(b))) IN
                      CanInvert(w) /\ V' = Invert(C) /\ W' = w
         /\ UNCHANGED <<kind, alpha, alpha2, bias>>
Increment == /\ bat # <<>> /\ kind \in {"direct", "indirect"} /\ Len(bat) < 3
             /\ \E b \in Batches(MaxBatch) :
                  /\ Len(All) + Len(b) <= MaxTotal
                  /\ LET X == TLCEval(Inputs(b))
                         Y == TLCEval(Outputs(b))
                         U == TLCEval(Invert(MAdd(Ident(Len(b)), MatMul(X, MatMul(V, Tr(X))))))
                         Q == TLCEval(MatMul(V, MatMul(Tr(X), MatMul(U, X))))
                         V2 == TLCEval(MSub(V, MatMul(Q, V)))
                         W2 == TLCEval(MAdd(MSub(W, MatMul(Q, W)),
                                            MatMul(V2, MatMul(Tr(X), Y)))) IN
                     CanInvert(W2) /\ V' = V2 /\ W' = W2
                  /\ bat' = Append(bat, b)
             /\ UNCHANGED <<kind, alpha, alpha2, bias>>
Next == Train \/ Increment
Spec == Init /\ [][Next]_vars

Trained == bat # <<>>
Linear == Trained /\ kind # "opp"
\* the increments agree with solving the whole problem at once
InverseExact == Linear => MatMul(V, Cov(All)) = Ident(D)
SolutionExact == Linear => MatMul(Cov(All), W) = Cross(All)

Usable == Trained
Coef == CASE kind = "indirect" -> Tr(SolveM(JJ, W)) [] kind = "opp" -> <<>> [] OTHER -> W

\* orthogonal Procrustes: the best orthonormal R has tr(R'M) equal to the sum
\* of the singular values of M = X'Y; for two columns
\*    (s1 + s2)^2 = tr(M'M) + 2 sqrt(det(M'M))
MM == Gram(V)
Procr == IF kind # "opp" THEN [tr |-> Zero, det |-> Zero, m |-> <<>>]
         ELSE [tr |-> Add(MM[1][1], MM[2][2]), det |-> Det(MM), m |-> V]

Emit == Usable => CSVWrite("%1$s", <<ToJson(
   [kind |-> kind, alpha |-> alpha, alpha2 |-> alpha2, bias |-> bias, bat |-> bat,
    coef |-> Coef, procr |-> Procr])>>, IOEnv.OUT)
=============================================================================
