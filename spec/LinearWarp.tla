----------------------------- MODULE LinearWarp -----------------------------
(* The linear (dense) model-driven warp: four copies of the world of          *)
(* ShapeModel.tla, the first copy being the sparse landmarks.  Mode j moves   *)
(* copy c by Sgn[c][j] times the mode of the small world (a Hadamard pattern, *)
(* so that the modes stay orthogonal); the norm of every basis vector doubles *)
(* and is divided by two, so parameters are twice those of the small world.   *)
EXTENDS ShapeModel

CONSTANT NModes
VARIABLES m, tgt, sparse
lvars == <<vars, m, tgt, sparse>>

Sgn == <<<<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>>>>
Signed(c, w) == TLCEval([j \in 1..Len(w) |-> Mul(I(Sgn[c][j]), w[j])])
Blocks(g, w) == TLCEval([c \in 1..4 |-> Instance_(g, Signed(c, w))])
Quarter(s) == VScale(R(1, 4), s)
RECURSIVE VSumTo(_, _)
VSumTo(f, n) == IF n = 1 THEN f[1] ELSE VAdd(f[n], VSumTo(f, n - 1))
FitBlocks(X) ==
  LET g == TLCEval(Coord(VSub(Quarter(VSumTo(X, 4)), Mean), E, 4))
      y == TLCEval([c \in 1..4 |-> Signed(c, Coord(VSub(OffSim(g, X[c]), Mean), B, m))])
      w == TLCEval(Quarter(VSumTo(y, 4))) IN
  q' = g /\ b' = w /\ tgt' = Blocks(g, w)
\* densify: coordinates of the sparse shape in the unrotated basis, carried over
Densify(x) ==
  LET e == Coord(x, E, 4)
      w == Coord(x, B, m) IN
  TLCEval([c \in 1..4 |-> VAdd(Comb(e, E), Comb(Signed(c, w), B))])

LInit == /\ Init /\ kind = "ortho" /\ m \in NModes /\ sparse = <<>>
         /\ tgt = [c \in 1..4 |-> Mean]
LNext == /\ More /\ UNCHANGED <<kind, k, exact, m, target>>
         /\ \/ \E i \in 1..Len(Targets) :
                 Log("sparse", i) /\ sparse' = Shape(Targets[i]) /\ FitBlocks(Densify(Shape(Targets[i])))
            \/ \E i \in 1..Len(Targets) : LET t == Targets[i] IN
                 /\ Log("full", i) /\ sparse' = <<>>
                 /\ FitBlocks(TLCEval([c \in 1..4 |->
                      Shape([t EXCEPT !.b = [j \in 1..4 |-> Sgn[c][j] * t.b[j]]])]))
            \/ \E i \in 1..Len(QVecs) :
                 LET g == RV(QVecs[i])
                     w == TLCEval(SubSeq(RV(BVecs[i]), 1, m)) IN
                 /\ SimRegular(g) /\ Log("vector", i) /\ sparse' = <<>>
                 /\ q' = g /\ b' = w /\ tgt' = Blocks(g, w)
LSpec == LInit /\ [][LNext]_lvars

FollowsParameters == hist # <<>> => tgt = Blocks(q, b)
\* a sparse target that the model can generate without rotating is reached
Unrotated(t) == t.q[2] = 0 /\ \A j \in (m + 1)..4 : t.b[j] = 0
Reaches == (hist # <<>> /\ LastOp.op = "sparse" /\ Unrotated(Targets[LastOp.i])) => tgt[1] = sparse
EmitLinear == hist # <<>> => CSVWrite("%1$s", <<ToJson([hist |-> hist, m |-> m, q |-> q, b |-> b,
   tgt |-> tgt])>>, IOEnv.OUT)
=============================================================================
