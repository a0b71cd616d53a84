------------------------------ MODULE SafeRat ------------------------------
(* Exact rational arithmetic (as in Rat) that notices when a number would no  *)
(* longer fit TLC's integers: the result is then NaR ("not a rational"),      *)
(* which every operation hands on, so that a specification can leave such     *)
(* states out instead of stopping.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
Gcd(a, b) == GcdR(Abs(a), Abs(b))

NaR == <<0, 0>>
Limit == 1000000000
Fits(x, y) == x = 0 \/ Abs(y) <= Limit \div Abs(x)

R(n, d) == IF d = 0 THEN NaR
           ELSE LET g == Gcd(n, d) IN
           IF d < 0 THEN <<-(n \div g), -(d \div g)>> ELSE <<n \div g, d \div g>>
I(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Num(a) == a[1]
Den(a) == a[2]
Ok(a) == a[2] # 0
Neg(a) == <<-a[1], a[2]>>
Mul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaR
             ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
             ELSE LET g == Gcd(a[1], b[2])
                      h == Gcd(b[1], a[2]) IN
             IF ~Fits(a[1] \div g, b[1] \div h) \/ ~Fits(a[2] \div h, b[2] \div g) THEN NaR
             ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
Inv(a) == IF a[2] = 0 \/ a[1] = 0 THEN NaR ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Add(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaR
             ELSE LET g == Gcd(a[2], b[2]) IN
             IF ~Fits(a[1], b[2] \div g) \/ ~Fits(b[1], a[2] \div g) \/ ~Fits(a[2] \div g, b[2]) THEN NaR
             ELSE LET t == a[1] * (b[2] \div g) + b[1] * (a[2] \div g)
                      h == Gcd(t, g) IN
             IF t = 0 THEN Zero ELSE <<t \div h, (a[2] \div g) * (b[2] \div h)>>
Sub(a, b) == Add(a, Neg(b))
Lt(a, b) == Sub(a, b)[1] < 0
Le(a, b) == Sub(a, b)[1] <= 0
RAbs(a) == <<Abs(a[1]), a[2]>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))

VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> Add(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> Sub(u[i], v[i])])
VScale(c, v) == TLCEval([i \in 1..Len(v) |-> Mul(c, v[i])])
VZero(n) == [i \in 1..n |-> Zero]
VOk(v) == \A i \in 1..Len(v) : Ok(v[i])
Dot(u, v) == SumSeq([i \in 1..Len(u) |-> Mul(u[i], v[i])])
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
Tr(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
RV(v) == TLCEval([i \in 1..Len(v) |-> I(v[i])])
RM(A) == TLCEval([i \in 1..Len(A) |-> RV(A[i])])

\* exact linear solve; NaR everywhere when A is singular
RECURSIVE GJ(_, _, _)
GJ(M, c, n) ==
  IF c > n THEN M
  ELSE LET rows == {r \in c..n : M[r][c][1] # 0 \/ M[r][c][2] = 0} IN
       IF rows = {} THEN [r \in 1..n |-> [k \in 1..Len(M[1]) |-> NaR]]
       ELSE LET p == CHOOSE r \in rows : \A s \in rows : r <= s
                S == TLCEval([M EXCEPT ![c] = M[p], ![p] = M[c]])
                prow == VScale(Inv(S[c][c]), S[c])
                N == TLCEval([r \in 1..Len(S) |->
                   IF r = c THEN prow
                   ELSE VSub(S[r], VScale(S[r][c], prow))])
            IN GJ(N, c + 1, n)
SolveV(A, b) == LET n == Len(A)
                    X == GJ(TLCEval([i \in 1..n |-> Append(A[i], b[i])]), 1, n)
                IN TLCEval([i \in 1..n |-> X[i][n + 1]])
=============================================================================
