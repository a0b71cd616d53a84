-------------------------------- MODULE Pwa ---------------------------------
(* Piecewise affine warp: a triangulated source with integer landmarks, a     *)
(* sequence of target settings, and the map and its derivatives at rational   *)
(* evaluation points (inside triangles, on edges, on landmarks, outside).     *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Meshes,    \* sequence of [pts |-> <<<<x,y>>..>>, tris |-> <<<<i,j,k>>..>>]
          Shifts,    \* sequence of displacement patterns (used cyclically)
          Span, Half,   \* evaluation grid: multiples of 1/Half in 0..Span
          MaxOps

VARIABLES mesh, tgt, hist
vars == <<mesh, tgt, hist>>

M == Meshes[mesh]
NP == Len(M.pts)
Src(i) == RV(M.pts[i])
Moved(d) == TLCEval([i \in 1..NP |-> VAdd(Src(i), RV(Shifts[d][((i - 1) % Len(Shifts[d])) + 1]))])

Init == /\ mesh \in 1..Len(Meshes) /\ tgt = TLCEval([i \in 1..NP |-> Src(i)]) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E d \in 1..Len(Shifts) :
             /\ tgt' = Moved(d) /\ hist' = Append(hist, d)
        /\ UNCHANGED mesh
Spec == Init /\ [][Next]_vars

\* barycentric weights of x in triangle t
Cross2(a, b) == Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))
Bary(t, x) == LET a == Src(t[1])
                  u == VSub(Src(t[2]), a)
                  v == VSub(Src(t[3]), a)
                  w == VSub(x, a)
                  D == Cross2(u, v)
                  be == Div(Cross2(w, v), D)
                  ga == Div(Cross2(u, w), D) IN
              TLCEval(<<Sub(One, Add(be, ga)), be, ga>>)
In(t, x) == LET b == Bary(t, x) IN \A k \in 1..3 : Num(b[k]) >= 0
Inside(t, x) == LET b == Bary(t, x) IN \A k \in 1..3 : Num(b[k]) > 0
Tris(x) == {k \in 1..Len(M.tris) : In(M.tris[k], x)}
\* one weight per landmark
Weights(k, x) == LET t == M.tris[k]
                     b == Bary(t, x) IN
   TLCEval([i \in 1..NP |-> IF i = t[1] THEN b[1] ELSE IF i = t[2] THEN b[2]
                            ELSE IF i = t[3] THEN b[3] ELSE Zero])
Map(T, w) == TLCEval(<<SumSeq([i \in 1..NP |-> Mul(w[i], T[i][1])]),
                       SumSeq([i \in 1..NP |-> Mul(w[i], T[i][2])])>>)
Grid == {<<R(i, Half), R(j, Half)>> : i \in 0..(Span * Half), j \in 0..(Span * Half)}
Domain_ == {x \in Grid : Tris(x) # {}}
Some(x) == CHOOSE k \in Tris(x) : TRUE

\* the map does not depend on which of two adjacent triangles is taken
Continuous == \A x \in Domain_ : \A k, l \in Tris(x) : Weights(k, x) = Weights(l, x)
\* partition of unity and linear precision: the identity target gives the identity
Identity == (hist = <<>>) => \A x \in Domain_ : Map(tgt, Weights(Some(x), x)) = x
Interpolates == \A i \in 1..NP : Map(tgt, Weights(Some(Src(i)), Src(i))) = tgt[i]
\* moving landmark i by a unit moves the image by the weight of i
LandmarkDerivative == \A x \in Domain_ : LET w == Weights(Some(x), x) IN
   \A i \in 1..NP : VSub(Map([tgt EXCEPT ![i] = VAdd(tgt[i], <<One, Zero>>)], w), Map(tgt, w))
                      = <<w[i], Zero>>
\* derivative inside a triangle: difference of the affine piece
Dx(k, x) == LET e1 == VAdd(x, <<One, Zero>>)
                e2 == VAdd(x, <<Zero, One>>)
                b == Map(tgt, Weights(k, x)) IN
            TLCEval(LET c1 == VSub(Map(tgt, Weights(k, e1)), b)
                        c2 == VSub(Map(tgt, Weights(k, e2)), b) IN
                    << <<c1[1], c2[1]>>, <<c1[2], c2[2]>> >>)
Strict(x) == {k \in Tris(x) : Inside(M.tris[k], x)}

Emit == CSVWrite("%1$s", <<ToJson([mesh |-> mesh, hist |-> hist, tgt |-> tgt,
   at |-> {[x |-> x, w |-> Weights(Some(x), x), y |-> Map(tgt, Weights(Some(x), x)),
            dx |-> IF Strict(x) = {} THEN <<>> ELSE Dx(Some(x), x)] : x \in Domain_},
   out |-> Grid \ Domain_])>>, IOEnv.OUT)
=============================================================================
