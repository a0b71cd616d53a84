----------------------------- MODULE OwnImages ------------------------------
(* A model that keeps all of its components reproduces every image it was     *)
(* built from (a template model: its template).  Fitting one of these images: *)
(* started where the image's own landmarks are, there is nothing to improve   *)
(* and the fit stays; started nearby, it comes back.  How exactly depends on  *)
(* the way the model looks at images: through a warp that interpolates        *)
(* between pixels, defined by the landmarks or by all points of the dense     *)
(* shape (which the model knows at its landmarks only up to interpolation),   *)
(* or through patches placed on whole pixels.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Appearance,   \* model classes with appearance variation
          Templates,    \* without
          Optimisers, TemplateOptimisers,
          Starts,       \* displacements, tenths of a pixel; the first is <<0, 0>>
          Images,       \* indices of training images
          Scales, Channels

VARIABLES m, a, s, i, sc, ch
vars == <<m, a, s, i, sc, ch>>
Dense == {"aam_linear", "aam_linmasked", "atm_linear", "atm_linmasked"}
Patches == {"aam_patch", "atm_patch"}
Home == s = <<0, 0>>
\* how far the end may be from home, in thousandths of a pixel
Reach == IF m \in Patches THEN (IF Home THEN 20 ELSE 1100)
         ELSE IF m \in Dense THEN 50 ELSE 20
\* patches notice nothing smaller than a pixel: they start this much further away
Far == IF m \in Patches THEN 4 ELSE 1
\* the cost where it starts, in millionths of that of a blank model
StartCost == IF m \in Dense THEN 5000 ELSE 100
Init == /\ \/ m \in Appearance /\ a \in Optimisers /\ i \in Images
           \/ m \in Templates /\ a \in TemplateOptimisers /\ i = 0
        /\ s \in Starts /\ sc \in Scales /\ ch \in Channels
        \* coarser levels are looked at through resized images
        /\ Len(sc) > 1 => m \notin Patches
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
ComesCloser == (Home \/ Reach < 400 * Far) /\ StartCost < 10000
Emit == CSVWrite("%1$s", <<ToJson([m |-> m, a |-> a, s |-> s, i |-> i, sc |-> sc, ch |-> ch, reach |-> Reach, home |-> Home, far |-> Far, cost |-> StartCost])>>, IOEnv.OUT)
=============================================================================
