------------------------------- MODULE Spline -------------------------------
(* Radial basis kernels and thin plate splines.  Kernel derivatives are       *)
(* (x - c) * (a + b log r^2) with rational a, b: for r^2 log r^2 they are     *)
(* 2 (x - c)(1 + log r^2), for r^2 log r they are (x - c)(1 + log r^2).       *)
(* A thin plate spline is linear in its target landmarks, so its landmark     *)
(* derivative w_i(x) satisfies  W(x; T) = sum_i w_i(x) T_i  for every target, *)
(* which at affine targets is an exact rational statement.                    *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Centres,   \* sequence of integer point sets
          Points, Unit,  \* evaluation points, integers in 1/Unit of a pixel
          Affines,   \* affine maps [[a,b,c],[d,e,f]] (integers) giving exact targets
          Bends,     \* displacement patterns added to the source: general targets
          Kernels, MaxOps

VARIABLES cs, kernel, hist
vars == <<cs, kernel, hist>>
Init == cs \in 1..Len(Centres) /\ kernel \in Kernels /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a \in 1..Len(Affines) : hist' = Append(hist, [k |-> "affine", i |-> a])
           \/ \E b \in 1..Len(Bends) : hist' = Append(hist, [k |-> "bend", i |-> b])
        /\ UNCHANGED <<cs, kernel>>
Spec == Init /\ [][Next]_vars

C == Centres[cs]
\* both in 1/Unit
Diff(x, c) == <<x[1] - c[1], x[2] - c[2]>>
R2(x, c) == LET d == Diff(x, c) IN R(d[1] * d[1] + d[2] * d[2], Unit * Unit)
Fine(c) == <<Unit * c[1], Unit * c[2]>>
Fac == IF kernel = "r2logr2" THEN 2 ELSE 1
\* coefficients: derivative = (g0 + g1 * log r2) componentwise, zero at the centre
Deriv(x, c) == [r2 |-> R2(x, c), g |-> <<R(Fac * Diff(x, c)[1], Unit), R(Fac * Diff(x, c)[2], Unit)>>]
\* value = v * log r2
Value(x, c) == [r2 |-> R2(x, c), v |-> IF kernel = "r2logr2" THEN R2(x, c) ELSE Mul(R2(x, c), R(1, 2))]

Im(A, x) == <<A[1][1] * x[1] + A[1][2] * x[2] + A[1][3], A[2][1] * x[1] + A[2][2] * x[2] + A[2][3]>>
\* of a point in 1/Unit
ImP(A, x) == <<R(A[1][1] * x[1] + A[1][2] * x[2] + Unit * A[1][3], Unit), R(A[2][1] * x[1] + A[2][2] * x[2] + Unit * A[2][3], Unit)>>
Last_ == hist[Len(hist)]
Tgt == IF hist = <<>> THEN C
       ELSE IF Last_.k = "affine" THEN [i \in 1..Len(C) |-> Im(Affines[Last_.i], C[i])]
       ELSE LET B == Bends[Last_.i] IN
            [i \in 1..Len(C) |-> <<C[i][1] + B[((i - 1) % Len(B)) + 1][1],
                                   C[i][2] + B[((i - 1) % Len(B)) + 1][2]>>]
Exact == hist = <<>> \/ Last_.k = "affine"
Map_ == IF hist = <<>> THEN <<<<1, 0, 0>>, <<0, 1, 0>>>>
        ELSE IF Exact THEN Affines[Last_.i] ELSE <<>>
\* translations and rotations of the centres and points leave r^2 unchanged;
\* the kernel derivative is odd
Odd == \A i \in 1..Len(Points), j \in 1..Len(C) :
         LET a == Deriv(Points[i], Fine(C[j]))
             b == Deriv(Fine(C[j]), Points[i]) IN
         a.r2 = b.r2 /\ a.g = <<Neg(b.g[1]), Neg(b.g[2])>>

Emit == CSVWrite("%1$s", <<ToJson([cs |-> cs, kernel |-> kernel, hist |-> hist, tgt |-> Tgt,
   map |-> Map_, images |-> IF Exact THEN [i \in 1..Len(Points) |-> ImP(Map_, Points[i])] ELSE <<>>,
   kern |-> IF hist = <<>> THEN [i \in 1..Len(Points) |-> [j \in 1..Len(C) |->
               [d |-> Deriv(Points[i], Fine(C[j])), v |-> Value(Points[i], Fine(C[j]))]]] ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
