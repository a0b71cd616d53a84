------------------------------ MODULE Instances ------------------------------
(* Generating from a trained multi-scale model.                               *)
(*  State: the numbers of active components of the shape and of the           *)
(*  appearance model of every scale.  Actions: a scale's model is given       *)
(*  another number of active components; an instance is asked for at a scale  *)
(*  (counted from either end) with some weights, or none; the appearance      *)
(*  parameters of a fitting are reconstructed.                                *)
(*  Shapes are mean + sum of weight x deviation x direction; the texture is   *)
(*  the template's, carried into the frame of the instance by the map that    *)
(*  takes the instance's landmarks to the template's.  The template shows its *)
(*  own coordinates, so that a pixel tells where it was taken from.           *)
EXTENDS Tri, Json, IOUtils, CSV, TLC

CONSTANTS Kind,      \* "pwa" | "tps" | "patch" | "shape"
          Scales,    \* sequence of models, see Models in p20.py
          Tris, WS, WA, Iters, MaxOps, Sizes

VARIABLES act, log
vars == <<act, log>>
NS == Len(Scales)
HasApp == \A j \in 1..NS : Scales[j].app # <<>>
NShape(j) == Len(Scales[j].modes)
NApp(j) == Len(Scales[j].app)

\* a scale may be named from the end
At(i) == IF i >= 0 THEN i + 1 ELSE NS + i + 1

Shape(j, w) == TLCEval([p \in 1..Len(Scales[j].mean) |-> [d \in 1..2 |->
   Scales[j].mean[p][d] + ISumSeq([k \in 1..Len(w) |-> w[k] * Scales[j].sd[k] * Scales[j].modes[k][p][d]])]])
\* per appearance component, the constant it adds to its channel
Texture(j, w) == TLCEval([k \in 1..NApp(j) |-> IF k <= Len(w) THEN w[k] * Scales[j].app[k] ELSE 0])

\* where in the template the texture at q comes from
From(j, s, t, q) == FromTri(s, Scales[j].template, t, q)
Proper(s) == \A k \in 1..Len(Tris) : Area(s, Tris[k]) > 0
Hits(s, q) == {k \in 1..Len(Tris) : In(s, Tris[k], q)}
\* pixels of the frame (relative to the shape's own coordinates)
Patches(j, s) == UNION {PatchAt(s[p], Sizes[j]) : p \in 1..Len(s)}
Pixels(j, s) ==
  CASE Kind = "pwa" -> {[q |-> q, sure |-> (\E k \in Hits(s, q) : Within(s, Tris[k], q)),
                         t |-> From(j, s, Tris[CHOOSE k \in Hits(s, q) : TRUE], q)] :
                          q \in {q \in Box(s, 0) : Hits(s, q) # {}}}
    [] Kind = "tps" -> {[q |-> q, sure |-> TRUE, t |-> From(j, s, Tris[1], q)] : q \in Patches(j, s)}
    [] OTHER -> {}

\* ---------------------------------------------------------------- actions --
Activate == \E j \in 1..NS, kind \in (IF HasApp THEN {"shape", "app"} ELSE {"shape"}) :
  \E n \in 1..(IF kind = "shape" THEN NShape(j) ELSE NApp(j)) :
     /\ n # act[kind][j]
     /\ act' = [act EXCEPT ![kind][j] = n]
     /\ log' = Append(log, [op |-> "activate", kind |-> kind, j |-> j, n |-> n])
Ask(i, ws, wa) == LET j == At(i)
                      s == Shape(j, ws) IN
  /\ Len(ws) <= act.shape[j] /\ Len(wa) <= act.app[j]
  /\ (Kind \in {"pwa", "tps"}) => Proper(s)
  /\ log' = Append(log, [op |-> "instance", i |-> i, j |-> j, ws |-> ws, wa |-> wa,
                         shape |-> s, tex |-> Texture(j, wa),
                         pixels |-> IF MaxOps = 1 THEN TLCEval(Pixels(j, s)) ELSE {}])
  /\ UNCHANGED act
Instance == \E i \in (-NS)..(NS - 1), ws \in WS, wa \in (IF HasApp THEN WA ELSE {<<>>}) : Ask(i, ws, wa)
Draw == \E i \in (-NS)..(NS - 1) : LET j == At(i) IN
  /\ log' = Append(log, [op |-> "random", i |-> i, j |-> j, nshape |-> act.shape[j],
                         napp |-> IF HasApp THEN act.app[j] ELSE 0])
  /\ UNCHANGED act
\* state number k of the fitting has parameters that name it
Param(k, n) == [i \in 1..n |-> ((k * 3 + i * 5) % 7) - 3]
Owner(its, k) == CHOOSE j \in 1..Len(its) :
   /\ k <= ISumSeq([m \in 1..j |-> its[m] + 1])
   /\ k > ISumSeq([m \in 1..(j - 1) |-> its[m] + 1])
States(its) == ISumSeq([m \in 1..Len(its) |-> its[m] + 1])
Reconstruct == HasApp /\ \E its \in Iters :
  /\ log' = Append(log, [op |-> "reconstruct", its |-> its,
        c |-> TLCEval([k \in 1..States(its) |-> Param(k, act.app[Owner(its, k)])]),
        of |-> TLCEval([k \in 1..States(its) |-> Owner(its, k)])])
  /\ UNCHANGED act
Init == /\ act = [shape |-> [j \in 1..NS |-> NShape(j)], app |-> [j \in 1..NS |-> NApp(j)]]
        /\ log = <<>>
Next == Len(log) < MaxOps /\ (Activate \/ Instance \/ Draw \/ Reconstruct)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties --
Last == log[Len(log)]
\* every state of a fitting is reconstructed once and in order of the scales
InOrder == (log # <<>> /\ Last.op = "reconstruct") =>
   /\ \A k \in 1..(Len(Last.of) - 1) : Last.of[k] <= Last.of[k + 1]
   /\ \A j \in 1..NS : Cardinality({k \in 1..Len(Last.of) : Last.of[k] = j}) = Last.its[j] + 1
\* an instance without weights is the mean, and shows the template at its
\* own landmarks
MeanIsTemplate == (log # <<>> /\ Last.op = "instance") =>
   /\ (\A k \in 1..Len(Last.ws) : Last.ws[k] = 0) => Last.shape = Scales[Last.j].mean
   /\ (\A k \in 1..Len(Last.wa) : Last.wa[k] = 0) => \A k \in 1..Len(Last.tex) : Last.tex[k] = 0
   /\ \A x \in Last.pixels : \A p \in 1..Len(Last.shape) :
        (x.q = Last.shape[p]) => x.t = <<I(Scales[Last.j].template[p][1]), I(Scales[Last.j].template[p][2])>>
\* trailing weights that are not given count as zero
Padding == \A j \in 1..NS, ws \in WS : (Len(ws) < NShape(j)) => Shape(j, ws) = Shape(j, Append(ws, 0))
Emit == (Len(log) = MaxOps) => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.OUT)
=============================================================================
