------------------------------- MODULE Ramps --------------------------------
(* Fitting on images whose brightness changes evenly: across the whole image  *)
(* (models that look at all of it) or around every landmark (models that      *)
(* look at patches).  There the linearisation each optimiser makes is exact,  *)
(* so the very first iteration arrives - provided image differences,          *)
(* gradients, Jacobian, the solution of the normal equations and the update   *)
(* of the warp all fit together.  A gradient of the wrong size or along the   *)
(* wrong axis still gets there in the end; here it is seen at once.           *)
EXTENDS SafeRat, Json, IOUtils, CSV
CONSTANTS Models, Optimisers, TemplateOptimisers, PartOptimisers,
          Starts,      \* displacements in quarters of a pixel
          PatchSizes, Channels

VARIABLES m, a, ps, ch, x, trace
vars == <<m, a, ps, ch, x, trace>>

Patches == {"aam_patch", "atm_patch", "aps"}
Templates == {"atm", "atm_masked", "atm_linear", "atm_linmasked", "atm_patch"}
\* gradients around the nine landmarks, tenths of a grey level per pixel; each
\* further channel sees those of the neighbours
Around == <<<<2, 1>>, <<-1, 2>>, <<1, -3>>, <<0, 2>>, <<3, 0>>, <<1, 1>>, <<-2, 1>>, <<1, 2>>, <<2, -1>>>>
Across == <<<<2, 1>>, <<1, -3>>>>
Sensed == IF m \in Patches
          THEN [k \in 1..(9 * ch) |-> Around[((((k - 1) % 9) + 9 - ((k - 1) \div 9)) % 9) + 1]]
          ELSE Across
ISum(s) == LET RECURSIVE go(_)
               go(i) == IF i = 0 THEN 0 ELSE s[i] + go(i - 1) IN go(Len(s))
H == [i \in 1..2 |-> [j \in 1..2 |-> I(ISum([k \in 1..Len(Sensed) |-> Sensed[k][i] * Sensed[k][j]]))]]
\* what is seen of a displacement: the difference at every pixel
Seen(d) == [k \in 1..Len(Sensed) |-> Add(Mul(I(Sensed[k][1]), d[1]), Mul(I(Sensed[k][2]), d[2]))]
Cost(d) == LET e == Seen(d) IN Dot(e, e)
Rhs(d) == [i \in 1..2 |-> Dot([k \in 1..Len(Sensed) |-> I(Sensed[k][i])], Seen(d))]

Sizes == IF m \in Patches \/ m \in {"aam_masked", "aam_linmasked", "atm_masked", "atm_linmasked"} THEN PatchSizes ELSE {<<0, 0>>}
Init == /\ m \in Models
        /\ a \in (IF m = "aps" THEN PartOptimisers ELSE IF m \in Templates THEN TemplateOptimisers ELSE Optimisers)
        /\ ps \in Sizes
        /\ ch \in (IF m \in Patches THEN Channels ELSE {2})
        /\ \E s \in Starts : /\ (m \in Patches) => (s[1] % 4 = 0 /\ s[2] % 4 = 0)
                             /\ x = <<R(s[1], 4), R(s[2], 4)>>
        /\ trace = <<[at |-> x, cost |-> Cost(x)]>>
Step == /\ Len(trace) < 3
        /\ x' = TLCEval(VSub(x, SolveV(H, Rhs(x))))
        /\ trace' = Append(trace, [at |-> x', cost |-> Cost(x')])
        /\ UNCHANGED <<m, a, ps, ch>>
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == VOk(x)
\* two directions are seen: the step is determined
Determined == SolveV(H, <<One, Zero>>)[1] # NaR
OneStepSuffices == Len(trace) > 1 => x = <<Zero, Zero>>
CostsFall == \A i \in 2..Len(trace) : Le(trace[i].cost, trace[i - 1].cost)
\* where the warp is not exactly linear (splines; dense shapes known through
\* interpolation) the first step gets most of the way: thousandths of a pixel
Slack == IF m \in {"aam", "aam_patch", "atm"} THEN <<1, 1>>
         ELSE IF m = "atm_patch" THEN <<10, 10>>
         ELSE IF m = "aps" THEN <<350, 600>>
         ELSE IF m \in {"aam_linear", "aam_linmasked"} THEN <<450, 220>>
         ELSE <<80, 30>>
Emit == Len(trace) = 3 => CSVWrite("%1$s", <<ToJson([m |-> m, a |-> a, ps |-> ps, ch |-> ch, slack |-> Slack,
   start |-> trace[1].at, cost |-> [i \in 1..Len(trace) |-> trace[i].cost], template |-> (m \in Templates)])>>, IOEnv.OUT)
=============================================================================
