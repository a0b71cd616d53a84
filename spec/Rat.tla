-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic shared by all specifications.  A rational is a *)
(* pair <<num, den>> with den > 0 and gcd(num, den) = 1.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
Gcd(a, b) == GcdR(Abs(a), Abs(b))

R(n, d) == LET g == Gcd(n, d) IN
           IF d < 0 THEN <<-(n \div g), -(d \div g)>> ELSE <<n \div g, d \div g>>
I(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>

Num(a) == a[1]
Den(a) == a[2]
Neg(a) == <<-a[1], a[2]>>
Mul(a, b) == LET g == Gcd(a[1], b[2])
                 h == Gcd(b[1], a[2]) IN
             IF a[1] = 0 \/ b[1] = 0 THEN Zero
             ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Add(a, b) == LET g == Gcd(a[2], b[2])
                 t == a[1] * (b[2] \div g) + b[1] * (a[2] \div g)
                 h == Gcd(t, g) IN
             IF t = 0 THEN Zero ELSE <<t \div h, (a[2] \div g) * (b[2] \div h)>>
Sub(a, b) == Add(a, Neg(b))
\* order
Lt(a, b) == Sub(a, b)[1] < 0
Le(a, b) == Sub(a, b)[1] <= 0
RAbs(a) == <<Abs(a[1]), a[2]>>
RMax(a, b) == IF Lt(a, b) THEN b ELSE a
RMin(a, b) == IF Lt(a, b) THEN a ELSE b
Floor(a) == a[1] \div a[2]
Ceil(a) == -((-a[1]) \div a[2])

\* folds over sequences
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))
RECURSIVE ISumSeq(_)
ISumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISumSeq(Tail(s))
RECURSIVE FlattenSeq_(_)
FlattenSeq_(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlattenSeq_(Tail(s))

\* vectors and matrices (sequences of rationals / of rows)
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> Add(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> Sub(u[i], v[i])])
VScale(c, v) == TLCEval([i \in 1..Len(v) |-> Mul(c, v[i])])
VZero(n) == [i \in 1..n |-> Zero]
Dot(u, v) == SumSeq([i \in 1..Len(u) |-> Mul(u[i], v[i])])
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
Tr(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MatMul(A, B) == LET BT == Tr(B) IN
                TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(BT) |-> Dot(A[i], BT[j])]])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A, B) == TLCEval([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MScale(c, A) == TLCEval([i \in 1..Len(A) |-> VScale(c, A[i])])
Ident(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
RV(v) == TLCEval([i \in 1..Len(v) |-> I(v[i])])
RM(A) == TLCEval([i \in 1..Len(A) |-> RV(A[i])])

\* exact linear solve by Gauss-Jordan elimination on the augmented matrix;
\* A must be square and non-singular.  B is a matrix of right-hand sides.
RECURSIVE GJ(_, _, _)
GJ(M, c, n) ==
  IF c > n THEN M
  ELSE LET p == CHOOSE r \in c..n : M[r][c][1] # 0
           S == TLCEval([M EXCEPT ![c] = M[p], ![p] = M[c]])
           prow == VScale(Inv(S[c][c]), S[c])
           N == TLCEval([r \in 1..Len(S) |->
                   IF r = c THEN prow
                   ELSE VSub(S[r], VScale(S[r][c], prow))])
       IN GJ(N, c + 1, n)
SolveM(A, B) ==
  LET n == Len(A)
      G == GJ(TLCEval([i \in 1..n |-> A[i] \o B[i]]), 1, n)
  IN [i \in 1..n |-> SubSeq(G[i], n + 1, Len(G[i]))]
SolveV(A, b) == LET X == SolveM(A, [i \in 1..Len(b) |-> <<b[i]>>])
                IN [i \in 1..Len(b) |-> X[i][1]]
Invert(A) == SolveM(A, Ident(Len(A)))

RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE SumSeq([j \in 1..Len(A) |->
                 Mul(IF j % 2 = 1 THEN A[1][j] ELSE Neg(A[1][j]),
                     Det(TLCEval([i \in 1..(Len(A) - 1) |->
                            [k \in 1..(Len(A) - 1) |->
                               A[i + 1][IF k < j THEN k ELSE k + 1]]])))])
=============================================================================
