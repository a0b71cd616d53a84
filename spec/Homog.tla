------------------------------- MODULE Homog --------------------------------
(* Differentiable homogeneous warps (affine, similarity and their alignment   *)
(* variants) as a state machine over parameter updates, compositions,         *)
(* inversions and re-targeting, in exact rational arithmetic.  Derivatives    *)
(* are not written down: they are differences of the map itself, which is     *)
(* linear in its parameters and in its input points.                          *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Kinds,     \* subset of {"affine2","affine3","sim2","aaffine2","asim2"}
          Vecs,      \* [kind -> sequence of integer parameter vectors]
          Evals2, Evals3,   \* integer evaluation points
          MaxOps

VARIABLES kind, H, hist
vars == <<kind, H, hist>>

N == IF kind = "affine3" THEN 3 ELSE 2
Sim == kind \in {"sim2", "asim2"}
Align == kind \in {"aaffine2", "asim2"}
NParams == IF Sim THEN 4 ELSE N * (N + 1)
\* the matrix [A | t] of a parameter vector
MatOf(p) == TLCEval(
  IF Sim THEN << <<Add(One, p[1]), Neg(p[2]), p[3]>>, <<p[2], Add(One, p[1]), p[4]>> >>
  ELSE [i \in 1..N |-> [j \in 1..(N + 1) |->
          IF i = j THEN Add(One, p[(j - 1) * N + i]) ELSE p[(j - 1) * N + i]]])
ParOf(M) == TLCEval(
  IF Sim THEN <<Sub(M[1][1], One), M[2][1], M[1][3], M[2][3]>>
  ELSE [k \in 1..(N * (N + 1)) |->
          LET i == ((k - 1) % N) + 1
              j == ((k - 1) \div N) + 1 IN
          IF i = j THEN Sub(M[i][j], One) ELSE M[i][j]])
Lin(M) == TLCEval([i \in 1..N |-> [j \in 1..N |-> M[i][j]]])
Trn(M) == TLCEval([i \in 1..N |-> M[i][N + 1]])
Apply(M, x) == VAdd(MatVec(Lin(M), x), Trn(M))
\* A(B(x))
After(A, B) == LET L == MatMul(Lin(A), Lin(B))
                   t == VAdd(MatVec(Lin(A), Trn(B)), Trn(A)) IN
               TLCEval([i \in 1..N |-> L[i] \o <<t[i]>>])
InvM(M) == LET L == Invert(Lin(M))
               t == VScale(I(-1), MatVec(L, Trn(M))) IN
           TLCEval([i \in 1..N |-> L[i] \o <<t[i]>>])
IdM == TLCEval([i \in 1..N |-> [j \in 1..(N + 1) |-> IF i = j THEN One ELSE Zero]])
Regular(M) == Num(Det(Lin(M))) # 0

Init == kind \in Kinds /\ H = IdM /\ hist = <<>>
More == Len(hist) < MaxOps
V(i) == RV(Vecs[kind][i])
Do(op, i, M) == /\ More /\ Regular(M)
                /\ H' = M /\ hist' = Append(hist, [op |-> op, i |-> i])
                /\ UNCHANGED kind
\* update in place / a copy with the vector / composition with the vector /
\* inversion / (alignments) alignment with the image of the source under the vector
Next == \E i \in 1..Len(Vecs[kind]) :
          \/ Do("set", i, MatOf(V(i)))
          \/ Do("copy", i, MatOf(V(i)))
          \/ Do("compose", i, After(H, MatOf(V(i))))
          \/ i = 1 /\ Do("invert", 0, InvM(H))
          \/ Align /\ Do("target", i, MatOf(V(i)))
Spec == Init /\ [][Next]_vars

Evals == IF N = 3 THEN Evals3 ELSE Evals2
Unit(n, k) == [i \in 1..n |-> IF i = k THEN One ELSE Zero]
Dx(x) == TLCEval([i \in 1..N |-> [k \in 1..N |->
           Sub(Apply(H, VAdd(x, Unit(N, k)))[i], Apply(H, x)[i])]])
Dp(x) == TLCEval([j \in 1..NParams |->
           VSub(Apply(MatOf(VAdd(ParOf(H), Unit(NParams, j))), x), Apply(H, x))])

RoundTrip == MatOf(ParOf(H)) = H
Inverts == After(H, InvM(H)) = IdM /\ After(InvM(H), H) = IdM
\* the map is linear in its parameters, so the difference is the derivative
Affine_ == \A e \in 1..Len(Evals) : LET x == RV(Evals[e]) IN
   /\ Dx(x) = Lin(H)
   /\ Apply(H, x) = VAdd(x, VScale(One, [i \in 1..N |->
         SumSeq([j \in 1..NParams |-> Mul(ParOf(H)[j], Dp(x)[j][i])])]))

Emit == CSVWrite("%1$s", <<ToJson([kind |-> kind, hist |-> hist, p |-> ParOf(H),
   inv |-> ParOf(InvM(H)), lin |-> Lin(H),
   w |-> [e \in 1..Len(Evals) |-> Apply(H, RV(Evals[e]))],
   dp |-> [e \in 1..Len(Evals) |-> Dp(RV(Evals[e]))],
   dx |-> Dx(RV(Evals[1]))])>>, IOEnv.OUT)
=============================================================================
