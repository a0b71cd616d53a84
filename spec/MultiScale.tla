----------------------------- MODULE MultiScale -----------------------------
(* Multi-scale fitting: pyramid preparation, per-scale optimisation, hand-   *)
(* off between scales and mapping of the results back to the caller's image.*)
(*                                                                           *)
(* A frame is, per axis, an affine map from that frame to the caller's       *)
(* image: original = m * x + b.  Shapes are pairs of tracer points with      *)
(* exact rational coordinates.  The optimiser of a scale is abstract: it     *)
(* reconstructs the starting shape (moving it by Rec[i], parametric families *)
(* only) and then performs any number 0..budget of iterations, moving the    *)
(* shape each time; it may stop early (convergence).                         *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Cfgs,      \* set of configurations, see below
          MaxIter    \* bound on iterations actually explored per scale

(* configuration:                                                            *)
(*  n      : number of scales                                                *)
(*  scales : sequence of rationals, feats : sequence of feature names        *)
(*  size   : <<rows, cols>> of the caller's image                            *)
(*  ratio  : diagonal(reference) / diagonal(start), a rational               *)
(*  start  : tracer points of the start (original frame, integers)           *)
(*  rec    : per scale, displacement of the model's reconstruction           *)
(*  step   : per scale, displacement per iteration (in original pixels)      *)
(*  family : "np" | "par"                                                    *)
(*  budget : [kind |-> "int" | "list", v |-> sequence]                       *)
VARIABLES cfg, phase, sc, frame, shape, k, calls, shapes, iters, imgsz
vars == <<cfg, phase, sc, frame, shape, k, calls, shapes, iters, imgsz>>

\* ------------------------------------------------------------ geometry ----
AxisId == [m |-> One, b |-> Zero]
\* frame composed with a resize of an image of extent n by factor s
Factor(n, s) == Div(Sub(Mul(s, I(n)), One), I(n - 1))
ResizeAxis(fr, n, s) == [m |-> Div(fr.m, Factor(n, s)), b |-> fr.b]
CropAxis(fr, o) == [m |-> fr.m, b |-> Add(fr.b, Mul(fr.m, I(o)))]
NewLen(n, s) == Ceil(Mul(s, I(n)))

\* an image = [fr : frame per axis, sz : extent per axis]
Resize(im, s) == [fr |-> [a \in 1..2 |-> ResizeAxis(im.fr[a], im.sz[a], s)],
                  sz |-> [a \in 1..2 |-> NewLen(im.sz[a], s)]]
Crop(im, o, l) == [fr |-> [a \in 1..2 |-> CropAxis(im.fr[a], o[a])],
                   sz |-> [a \in 1..2 |-> l[a]]]

Half == <<1, 2>>
CropOff == <<3, 2>>
\* features that change the geometry of the image
Feature(f, im) ==
  CASE f = "id"   -> im
    [] f = "id2"  -> im
    [] f = "crop" -> Crop(im, CropOff, <<im.sz[1] - 5, im.sz[2] - 3>>)
    [] f = "down" -> Resize(im, Half)
    [] f = "cropdown" -> Resize(Crop(im, CropOff, <<im.sz[1] - 5, im.sz[2] - 3>>), Half)

Original(c) == [fr |-> <<AxisId, AxisId>>, sz |-> c.size]
RefImage(c) == Resize(Original(c), c.ratio)
\* images of the scales are all derived from the image rescaled to the
\* reference shape: feature of the scale, then the scale itself
ScaleImage(c, i) ==
  LET f == Feature(c.feats[i], RefImage(c))
  IN IF c.scales[i] = One THEN f ELSE Resize(f, c.scales[i])

ToOrig(fr, p) == [a \in 1..2 |-> Add(Mul(fr[a].m, p[a]), fr[a].b)]
FromOrig(fr, p) == [a \in 1..2 |-> Div(Sub(p[a], fr[a].b), fr[a].m)]
ShapeTo(fr, s) == [j \in 1..Len(s) |-> ToOrig(fr, s[j])]
ShapeFrom(fr, s) == [j \in 1..Len(s) |-> FromOrig(fr, s[j])]
\* displacement given in original pixels, expressed in a frame; tracer j moves
\* by d + (j-1)*<<1,-1>> so that the motion is not a translation
Disp(fr, d, j) == [a \in 1..2 |->
    Div(I(d[a] + (IF d = <<0, 0>> THEN 0 ELSE (j - 1) * (IF a = 1 THEN 1 ELSE -1))), fr[a].m)]
Move(fr, s, d) == [j \in 1..Len(s) |-> VAdd(s[j], Disp(fr, d, j))]

\* -------------------------------------------------------------- budgets ---
\* the integers nearest to M / n  (two of them at a tie)
Nearest(M, n) == {x \in 0..M : 2 * Abs(n * x - M) <= n}
BudgetSet(c) == LET b == c.budget IN
   IF b.kind = "list" /\ Len(b.v) = c.n /\ c.n > 1 THEN {b.v}
   ELSE IF Len(b.v) = 1 THEN {[i \in 1..c.n |-> x] : x \in Nearest(b.v[1], c.n)}
   ELSE IF Len(b.v) = c.n THEN {b.v} ELSE {}
Rejected(c) == BudgetSet(c) = {}
\* largest admissible number of iterations at scale i
Cap(c, i) == LET S == {b[i] : b \in BudgetSet(c)} IN
             CHOOSE x \in S : \A y \in S : x >= y

\* ------------------------------------------------------------- actions ----
Pts(c) == [j \in 1..Len(c.start) |-> RV(c.start[j])]

Init == /\ cfg \in Cfgs
        /\ phase = IF Rejected(cfg) THEN "rejected" ELSE "prepare"
        /\ sc = 0 /\ frame = <<AxisId, AxisId>> /\ shape = Pts(cfg)
        /\ k = 0 /\ calls = <<>> /\ shapes = <<>> /\ iters = <<>> /\ imgsz = <<>>

\* pyramid preparation: the start is carried into the first scale's frame
Prepare == /\ phase = "prepare"
           /\ LET im == ScaleImage(cfg, 1) IN
              /\ frame' = im.fr
              /\ shape' = ShapeFrom(im.fr, Pts(cfg))
              /\ imgsz' = <<im.sz>>
           /\ sc' = 1 /\ phase' = "start"
           /\ shapes' = <<Pts(cfg)>>
           /\ UNCHANGED <<cfg, k, calls, iters>>

\* the optimiser is called; parametric ones first reconstruct the shape
Start == /\ phase = "start"
         /\ calls' = Append(calls, shape)
         /\ IF cfg.family = "par"
            THEN /\ shape' = Move(frame, shape, cfg.rec[sc])
                 /\ shapes' = Append(shapes, ShapeTo(frame, shape'))
            ELSE UNCHANGED <<shape, shapes>>
         /\ k' = 0 /\ phase' = "iterate"
         /\ UNCHANGED <<cfg, sc, frame, iters, imgsz>>

Iterate == /\ phase = "iterate"
           /\ k < Min2(MaxIter[sc], Cap(cfg, sc))
           /\ shape' = Move(frame, shape, cfg.step[sc])
           /\ shapes' = Append(shapes, ShapeTo(frame, shape'))
           /\ k' = k + 1
           /\ UNCHANGED <<cfg, phase, sc, frame, calls, iters, imgsz>>

\* the optimiser stops (budget spent, or it converged) and hands over
HandOff == /\ phase = "iterate" /\ sc < cfg.n
           /\ LET im == ScaleImage(cfg, sc + 1) IN
              /\ shape' = ShapeFrom(im.fr, ShapeTo(frame, shape))
              /\ frame' = im.fr
              /\ imgsz' = Append(imgsz, im.sz)
           /\ sc' = sc + 1 /\ phase' = "start" /\ iters' = Append(iters, k)
           /\ UNCHANGED <<cfg, k, calls, shapes>>

Finish == /\ phase = "iterate" /\ sc = cfg.n
          /\ phase' = "done" /\ iters' = Append(iters, k)
          /\ UNCHANGED <<cfg, sc, frame, shape, k, calls, shapes, imgsz>>

Next == Prepare \/ Start \/ Iterate \/ HandOff \/ Finish
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- properties ----
\* hand-off never moves the shape in the caller's image
OrigPos == ShapeTo(frame, shape)
HandOffPreserves ==
  [][HandOff => ShapeTo(frame', shape') = ShapeTo(frame, shape)]_vars
PreparePreserves ==
  [][Prepare => ShapeTo(frame', shape') = Pts(cfg)]_vars
\* the last recorded state is where the current shape is
InStep == phase \in {"start", "iterate", "done"} =>
            shapes[Len(shapes)] = OrigPos
\* one call per scale visited; one state per start and iteration
Bookkeeping == phase = "done" =>
   /\ Len(calls) = cfg.n /\ Len(iters) = cfg.n /\ Len(imgsz) = cfg.n
   /\ Len(shapes) = 1 + ISumSeq(iters) + (IF cfg.family = "par" THEN cfg.n ELSE 0)
WithinBudget == \A i \in 1..Len(iters) : iters[i] <= Cap(cfg, i)
\* a zero budget returns the start unchanged (up to the reconstruction)
ZeroBudget == (phase = "done" /\ \A i \in 1..cfg.n : Cap(cfg, i) = 0 /\ cfg.family = "np")
                 => shapes[Len(shapes)] = Pts(cfg)
\* totals: an integer budget M is exceeded at most by rounding
IntShare == (phase = "done" /\ cfg.budget.kind = "int") =>
   \A i \in 1..cfg.n : 2 * Abs(cfg.n * Cap(cfg, i) - cfg.budget.v[1]) <= cfg.n

Emit == phase \in {"done", "rejected"} =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, outcome |-> phase, calls |-> calls,
     shapes |-> shapes, iters |-> iters, imgsz |-> imgsz,
     caps |-> IF phase = "done" THEN [i \in 1..cfg.n |-> Cap(cfg, i)] ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
