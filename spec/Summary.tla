------------------------------- MODULE Summary -------------------------------
(* What a trained model or a fitter prints about itself.  A model is trained  *)
(* scale by scale, every scale with settings of its own; a fitter is built on *)
(* it and keeps some of its components active.  What is printed lists the     *)
(* scales in order, from the lowest to the highest, and under every scale the *)
(* settings of that scale: what was trained, and what the fitter keeps.       *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Kinds, MaxScales, Settings
\* a setting: [shape, app : components kept, patch : index, iters : cascade depth]

VARIABLES kind, n, per, keepS, keepA, diag, done
vars == <<kind, n, per, keepS, keepA, diag, done>>

\* what a family says about a scale
HasShape == {"aam", "aam_masked", "aam_linear", "aam_linmasked", "aam_patch", "atm", "atm_masked", "atm_linear", "atm_linmasked", "atm_patch",
             "clm", "aps", "unified", "sdaam"}
HasApp   == {"aam", "aam_masked", "aam_linear", "aam_linmasked", "aam_patch", "unified", "sdaam"}
HasPatch == {"aam_masked", "aam_linmasked", "aam_patch", "atm_masked", "atm_linmasked", "atm_patch", "clm", "aps", "unified", "sdm"}
HasIters == {"sdm", "sdaam", "dlib"}
\* a fitter is built on a model (a cascade is its own fitter)
Fitted   == HasShape \ {"sdaam"}

\* active components asked for: nothing, the same for all, one per scale
Keeps == {"none", "all", "each"}

Init == /\ kind \in Kinds /\ n \in 1..MaxScales /\ per = <<>> /\ keepS = "none" /\ keepA = "none"
        /\ diag \in BOOLEAN /\ done = FALSE
Train == /\ Len(per) < n
         /\ \E s \in 1..Len(Settings) : per' = Append(per, s)
         /\ UNCHANGED <<kind, n, keepS, keepA, diag, done>>
Fit == /\ Len(per) = n /\ ~done
       /\ keepS' \in IF kind \in Fitted THEN Keeps ELSE {"none"}
       /\ keepA' \in IF kind \in Fitted /\ kind \in HasApp THEN Keeps ELSE {"none"}
       /\ done' = TRUE
       /\ UNCHANGED <<kind, n, per, diag>>
Next == Train \/ Fit
Spec == Init /\ [][Next]_vars

S(k) == Settings[per[k]]
Min(a, b) == IF a < b THEN a ELSE b
\* asked for on scale k: "each" keeps all but one on every other scale
Asked(how, total, k) == IF how = "none" THEN total ELSE IF how = "all" THEN 1 ELSE IF k % 2 = 1 THEN Min(2, total) ELSE 1
Said(k) ==
  [shape |-> IF kind \in HasShape THEN S(k).shape ELSE 0,
   app |-> IF kind \in HasApp THEN S(k).app ELSE 0,
   patch |-> IF kind \in HasPatch THEN S(k).patch ELSE <<>>,
   iters |-> IF kind \in HasIters THEN S(k).iters ELSE 0,
   activeShape |-> IF kind \in Fitted THEN Asked(keepS, S(k).shape, k) ELSE 0,
   activeApp |-> IF kind \in Fitted /\ kind \in HasApp THEN Asked(keepA, S(k).app, k) ELSE 0]
Expected == [kind |-> kind, n |-> n, per |-> [k \in 1..n |-> S(k)], keepS |-> keepS, keepA |-> keepA, diag |-> diag,
             said |-> [k \in 1..n |-> Said(k)]]
\* what is active was trained
Active == done => \A k \in 1..n : Said(k).activeShape <= Said(k).shape /\ Said(k).activeApp <= Said(k).app
\* scales trained alike are described alike unless the fitter was asked otherwise
Alike == done => \A j, k \in 1..n : (per[j] = per[k] /\ keepS # "each" /\ keepA # "each") => Said(j) = Said(k)
Emit == done => CSVWrite("%1$s", <<ToJson(Expected)>>, IOEnv.OUT)
=============================================================================
