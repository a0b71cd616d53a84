------------------------------- MODULE Result -------------------------------
(* Construction of a fitting result from the histories of its scales, and    *)
(* every question a caller may ask of it.  States are tokens (positive       *)
(* integers) numbered in the order in which the optimisers visit them; the   *)
(* replay realises every token as a distinct shape / parameter vector / cost.*)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Kinds,    \* result kinds, see Par
          MaxScales, MaxIter

VARIABLES kind, opt, phase, sc,
          per,      \* per scale [start, states, costs, params]
          next
vars == <<kind, opt, phase, sc, per, next>>

Par(k) == k \notin {"plain", "np"}
Multi == opt.n > 0

\* options: n = 0 is a single-level (algorithm) result, n > 0 a multi-scale one
Options == [n : 0..MaxScales, init : {"none", "first", "all"}, gt : BOOLEAN, image : BOOLEAN,
            costs : {"none", "iter", "state"}, ap : BOOLEAN]
Sensible(k, o) ==
  /\ (k = "plain") => (o.n = 0 /\ o.costs = "none")
  /\ (~Par(k)) => o.costs # "state"
  /\ (o.ap) => k \in {"aam", "unified", "aps"}
  /\ (o.n = 0) => o.init # "all"

Init == /\ kind \in Kinds
        /\ opt \in {o \in Options : Sensible(kind, o)}
        /\ phase = "scale" /\ sc = 0 /\ per = <<>> /\ next = 1

Levels == IF opt.n = 0 THEN 1 ELSE opt.n
HasStart(i) == opt.init = "all" \/ (opt.init = "first" /\ i = 1)

Begin == /\ phase = "scale" /\ sc < Levels
         /\ LET st == IF HasStart(sc + 1) THEN <<next>> ELSE <<>>
                n1 == next + Len(st)
                rec == IF Par(kind) THEN <<n1>> ELSE <<>> IN
            /\ per' = Append(per, [start |-> st, states |-> rec, rec |-> rec])
            /\ next' = n1 + Len(rec)
         /\ sc' = sc + 1 /\ phase' = "iterate"
         /\ UNCHANGED <<kind, opt>>
Iterate == /\ phase = "iterate" /\ Len(per[sc].states) < MaxIter + Len(per[sc].rec)
           /\ (kind = "plain") => per[sc].states = <<>>
           /\ per' = [per EXCEPT ![sc].states = Append(@, next)]
           /\ next' = next + 1
           /\ UNCHANGED <<kind, opt, phase, sc>>
\* a fit that has a start need not move from it
End == /\ phase = "iterate" /\ (per[sc].states # <<>> \/ (kind = "np" /\ per[sc].start # <<>>))
       /\ phase' = IF sc = Levels THEN "done" ELSE "scale"
       /\ UNCHANGED <<kind, opt, sc, per, next>>
Next == Begin \/ Iterate \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- queries ----
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
AllStates == Cat([i \in 1..Len(per) |-> per[i].states])
Start0 == per[1].start
Shapes == Start0 \o AllStates
Iters(i) == Len(per[i].states) - Len(per[i].rec)
NPer == [i \in 1..Len(per) |-> Iters(i)]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* costs belong to states ("state") or to the iterations that leave from them
CostTokens(i) == CASE opt.costs = "none" -> <<>>
                   [] opt.costs = "state" -> per[i].states
                   [] opt.costs = "iter" -> SubSeq(per[i].states, Len(per[i].rec) + 1, Len(per[i].states))
Costs == Cat([i \in 1..Len(per) |-> CostTokens(i)])
Recs == Cat([i \in 1..Len(per) |-> per[i].rec])

Expected == [kind |-> kind, opt |-> opt, per |-> per,
   perCosts |-> [i \in 1..Len(per) |-> CostTokens(i)],
   shapes |-> Shapes, final |-> Shapes[Len(Shapes)],
   nIters |-> Sum(NPer), nPer |-> NPer, recs |-> Recs,
   params |-> IF Par(kind) THEN AllStates ELSE <<>>, costs |-> Costs,
   moves |-> [i \in 1..(Len(Shapes) - 1) |-> <<Shapes[i], Shapes[i + 1]>>],
   finalError |-> IF opt.gt THEN "value" ELSE "ValueError",
   initialError |-> IF opt.gt /\ Start0 # <<>> THEN "value" ELSE "ValueError"]

\* ---------------------------------------------------------- properties ----
Done == phase = "done"
\* one state per start and per iteration
Count == Done => Len(Shapes) = Len(Start0) + Sum(NPer) + Len(Recs)
\* visiting order is the reported order, nothing twice
Ordered == Done => \A i, j \in 1..Len(Shapes) : i < j => Shapes[i] < Shapes[j]
RecIndex == Done /\ Par(kind) =>
   \A i \in 1..Len(per) :
     Shapes[Len(Start0) + Sum([j \in 1..(i - 1) |-> NPer[j] + 1]) + 1] = Recs[i]
Emit == Done => CSVWrite("%1$s", <<ToJson(Expected)>>, IOEnv.OUT)
=============================================================================
