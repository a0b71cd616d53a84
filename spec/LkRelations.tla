---------------------------- MODULE LkRelations -----------------------------
(* What Lucas-Kanade alignment promises under changes of intensity, for each  *)
(* way of measuring the difference between the warped image and the template. *)
(* A run is a comparison of two alignments: one of the original image and one *)
(* of an image whose intensities v have become gain * v + bias, with the      *)
(* template changed along or left alone; or of image and template both seen   *)
(* transposed, upside down or from behind, which turns the path alike.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS Residuals, Algs, Gains, Biases, Offsets, Textures, Transforms, Views

VARIABLES residual, alg, gain, bias, along, offset, texture, transform, view
vars == <<residual, alg, gain, bias, along, offset, texture, transform, view>>

Squares == {"SSD", "FourierSSD"}
\* (where the gradient has been set to zero, at the border of what is
\* linearised, its orientation is taken to be that of the second axis)
Oriented == view \in {"same", "upside"} \/ residual # "GradientCorrelation" \/ alg = "fa"
\* the same path through the parameters
SamePath == Oriented /\
  \/ gain = 1 /\ bias = 0
  \/ along
  \/ residual \in {"ECC", "GradientImages", "GradientCorrelation"}
\* the costs: multiplied by this
CostFactor == IF residual \in Squares THEN gain * gain ELSE 1
\* the cost of a perfect match
BestCost == IF residual \in {"ECC", "GradientCorrelation"} THEN 1 ELSE 0
\* every measure finds the place the template was taken from
Finds == Oriented /\ (along \/ residual \notin Squares \/ (gain = 1 /\ bias = 0))

Init == /\ residual \in Residuals /\ alg \in Algs /\ gain \in Gains /\ bias \in Biases
        /\ along \in BOOLEAN /\ offset \in Offsets /\ texture \in Textures /\ transform \in Transforms
        /\ view \in Views /\ (view # "same" => gain = 1 /\ bias = 0 /\ ~along)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* nothing is promised where the two disagree about what is best
Sound == Finds => SamePath
\* where a point (row, column) of an image with rows and columns 0 .. n is seen
Seen(v, p, n) == CASE v = "transposed" -> <<p[2], p[1]>>
                   [] v = "upside"     -> <<n - p[1], p[2]>>
                   [] v = "behind"     -> <<p[1], n - p[2]>>
                   [] OTHER            -> p
\* looking again shows the original
Back == Seen(view, Seen(view, offset, 59), 59) = offset
Emit == SamePath =>
  CSVWrite("%1$s", <<ToJson([residual |-> residual, alg |-> alg, gain |-> gain, bias |-> bias, along |-> along, offset |-> offset,
                             texture |-> texture, transform |-> transform, view |-> view, factor |-> CostFactor, best |-> BestCost])>>, IOEnv.OUT)
=============================================================================
