----------------------------- MODULE ShapeModel -----------------------------
(* Statistical shape models as state machines: a four-point world whose mean, *)
(* similarity basis and modes of variation are rational and orthonormal, so   *)
(* that every target setting and parameter update has an exact answer.        *)
(*   "pdm"    linear model                     target = mean + B b            *)
(*   "ortho"  orthonormal model                target = S_q(mean + B b)       *)
(*   "global" similarity alignment on top      target = S_p(mean + B b)       *)
(*   "sim"    similarity only                  target = S_p(mean)             *)
(* Shapes are vectors (y1, x1, y2, x2, ...).  After an increment the model is *)
(* no longer this one: the history goes on, the exact values stop (exact).    *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Kinds, Targets,   \* sequence of [q |-> 4 ints, b |-> 4 ints] (see Shape)
          QVecs, BVecs,     \* integer parameter vectors
          Actives, MaxOps, WithIncrement

VARIABLES kind, k, q, b, target, exact, hist
vars == <<kind, k, q, b, target, exact, hist>>

U == <<1, 1, -1, -1>>
Vv == <<1, -1, -1, 1>>
Ww == <<1, -1, 1, -1>>
Inter(a, c) == TLCEval([i \in 1..8 |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE c[i \div 2]])
Vec(n, d, a, c) == TLCEval([i \in 1..8 |-> R(n * Inter(a, c)[i], d)])
Times(n, a) == TLCEval([i \in 1..4 |-> n * a[i]])
O4 == <<0, 0, 0, 0>>
Mean == Vec(1, 1, Times(3, U), Times(4, Vv))
\* similarity basis: mean, mean rotated by 90 degrees, the two translations
E == TLCEval(<<Vec(1, 10, Times(3, U), Times(4, Vv)), Vec(1, 10, Times(-4, Vv), Times(3, U)),
       Vec(1, 2, <<1, 1, 1, 1>>, O4), Vec(1, 2, O4, <<1, 1, 1, 1>>)>>)
B == TLCEval(<<Vec(1, 10, Times(4, U), Times(-3, Vv)), Vec(1, 10, Times(3, Vv), Times(4, U)),
       Vec(1, 2, Ww, O4), Vec(1, 2, O4, Ww)>>)
Basis == E \o B
ASSUME \A i, j \in 1..8 : Dot(Basis[i], Basis[j]) = (IF i = j THEN One ELSE Zero)

Comb(c, A) == TLCEval([i \in 1..8 |-> SumSeq([j \in 1..Len(c) |-> Mul(c[j], A[j][i])])])
Coord(x, A, n) == TLCEval([j \in 1..n |-> Dot(x, A[j])])

\* the similarity [a -c; c a] + (t1, t2) applied to a shape
Sim(a, c, t1, t2, x) == TLCEval([i \in 1..8 |->
   IF i % 2 = 1 THEN Add(Sub(Mul(a, x[i]), Mul(c, x[i + 1])), t1)
   ELSE Add(Add(Mul(c, x[i - 1]), Mul(a, x[i])), t2)])
UnSim(a, c, t1, t2, x) ==
   LET n == Add(Mul(a, a), Mul(c, c)) IN
   Sim(Div(a, n), Neg(Div(c, n)), Zero, Zero, Sim(One, Zero, Neg(t1), Neg(t2), x))
\* parameters -> similarity coefficients: "ortho" weighs the orthonormal basis
SA(g) == IF kind = "ortho" THEN Add(One, Div(g[1], I(10))) ELSE Add(One, g[1])
SC(g) == IF kind = "ortho" THEN Div(g[2], I(10)) ELSE g[2]
ST1(g) == IF kind = "ortho" THEN Div(g[3], I(2)) ELSE g[3]
ST2(g) == IF kind = "ortho" THEN Div(g[4], I(2)) ELSE g[4]
OnSim(g, x) == Sim(SA(g), SC(g), ST1(g), ST2(g), x)
OffSim(g, x) == UnSim(SA(g), SC(g), ST1(g), ST2(g), x)
SimRegular(g) == ~(Num(SA(g)) = 0 /\ Num(SC(g)) = 0)

HasB == kind # "sim"
HasQ == kind # "pdm"
Instance_(g, w) == TLCEval(LET s == IF HasB THEN VAdd(Mean, Comb(w, B)) ELSE Mean IN
                   IF HasQ THEN OnSim(g, s) ELSE s)
\* a shape to be fitted: S(mean + all four modes), S in mean-relative integers
Shape(t) == TLCEval(Sim(Add(One, R(t.q[1], 2)), R(t.q[2], 2), I(t.q[3]), I(t.q[4]),
                VAdd(Mean, Comb(RV(t.b), B))))
Pure(t) == \A i \in 1..4 : t.b[i] = 0
\* global parameters of the best alignment of the mean with a shape.  The
\* alignment of "global" and "sim" matches the norms: exact here for pure
\* similarities of the mean only.
Align(x) == IF kind = "ortho" THEN Coord(VSub(x, Mean), E, 4)
            ELSE LET d == Coord(VSub(x, Mean), E, 4) IN
                 <<Div(d[1], I(10)), Div(d[2], I(10)), Div(d[3], I(2)), Div(d[4], I(2))>>
Solvable(t) == kind \in {"pdm", "ortho"} \/ Pure(t)

Zeros(n) == [i \in 1..n |-> Zero]
Init == /\ kind \in Kinds
        /\ k = (IF kind = "sim" THEN 0 ELSE 4)
        /\ q = (IF kind = "pdm" THEN <<>> ELSE Zeros(4)) /\ b = Zeros(k)
        /\ target = Mean /\ exact = TRUE /\ hist = <<>>

More == Len(hist) < MaxOps
Log(op, i) == hist' = Append(hist, [op |-> op, i |-> i])
Stay == UNCHANGED <<q, b, target>>
\* fit the model to a shape x
Fit(x, n) ==
  LET g == TLCEval(IF HasQ THEN Align(x) ELSE <<>>)
      y == TLCEval(IF HasQ THEN OffSim(g, x) ELSE x)
      w == TLCEval(IF HasB THEN Coord(VSub(y, Mean), B, n) ELSE <<>>) IN
  q' = g /\ b' = w /\ target' = Instance_(g, w)

SetTarget(i) ==
  /\ Log("target", i)
  /\ IF exact /\ Solvable(Targets[i])
     THEN Fit(Shape(Targets[i]), k) /\ exact' = TRUE
     ELSE exact' = FALSE /\ Stay
  /\ UNCHANGED <<kind, k>>
\* a full vector makes any model's state known again unless its modes changed
Incremented == \E j \in 1..Len(hist) : hist[j].op = "increment"
FromVector(i) ==
  /\ Log("vector", i)
  /\ LET g == TLCEval(IF HasQ THEN (IF kind = "ortho" THEN RV(QVecs[i]) ELSE VScale(R(1, 10), RV(QVecs[i]))) ELSE <<>>)
         w == TLCEval(SubSeq(RV(BVecs[i]), 1, k)) IN
     IF Incremented THEN exact' = FALSE /\ Stay
     ELSE /\ HasQ => SimRegular(g)
          /\ q' = g /\ b' = w /\ target' = Instance_(g, w) /\ exact' = TRUE
  /\ UNCHANGED <<kind, k>>
\* changing the number of active components re-fits the current target
SetActive(n) ==
  /\ HasB /\ Log("active", n)
  /\ k' = n
  /\ IF exact /\ (kind \in {"pdm", "ortho"}) THEN Fit(target, n) /\ exact' = TRUE
     ELSE exact' = FALSE /\ b' = Zeros(n) /\ UNCHANGED <<q, target>>
  /\ UNCHANGED kind
Increment(i) ==
  /\ HasB /\ WithIncrement /\ ~Incremented /\ Log("increment", i)
  /\ exact' = FALSE /\ Stay /\ UNCHANGED <<kind, k>>

Next == More /\ (\/ \E i \in 1..Len(Targets) : SetTarget(i)
                 \/ \E i \in 1..Len(QVecs) : FromVector(i)
                 \/ \E n \in Actives : SetActive(n)
                 \/ \E i \in 1..2 : Increment(i))
Spec == Init /\ [][Next]_vars

\* ---- properties
LengthsAgree == Len(b) = k /\ Len(q) = (IF HasQ THEN 4 ELSE 0)
InStep == exact => target = Instance_(q, b)
\* re-fitting the model's own target changes nothing (linear and orthonormal)
Refit(g, w, x) ==
  LET g2 == TLCEval(IF HasQ THEN Align(x) ELSE <<>>)
      y == TLCEval(IF HasQ THEN OffSim(g2, x) ELSE x)
      w2 == TLCEval(IF HasB THEN Coord(VSub(y, Mean), B, k) ELSE <<>>) IN
  g2 = g /\ w2 = w
Stationary == (exact /\ kind \in {"pdm", "ortho", "sim"} /\ (HasQ => SimRegular(q))) => Refit(q, b, target)
\* the residual of a fitted target is orthogonal to everything the model can
\* move in the frame of the fit
LastOp == IF hist = <<>> THEN [op |-> "", i |-> 0] ELSE hist[Len(hist)]
Closest == (exact /\ LastOp.op = "target") =>
   LET x == Shape(Targets[LastOp.i])
       r == VSub(IF HasQ THEN OffSim(q, x) ELSE x, IF HasQ THEN OffSim(q, target) ELSE target) IN
   (kind # "global" /\ kind # "sim") =>
     /\ \A j \in 1..k : Dot(r, B[j]) = Zero
     /\ kind = "ortho" => \A j \in 1..4 : Dot(r, E[j]) = Zero

Emit == CSVWrite("%1$s", <<ToJson([kind |-> kind, hist |-> hist, k |-> k, exact |-> exact,
   q |-> q, b |-> b, target |-> target])>>, IOEnv.OUT)
=============================================================================
