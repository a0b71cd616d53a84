------------------------------ MODULE FitTrace ------------------------------
(* Trace specification of a complete multi-scale fit.  The harness records   *)
(* real fits of every fitter family as a sequence of events (one per call    *)
(* into an optimiser, per state it reports, per return and for the result);  *)
(* coordinates are integers (1/1000 pixel of the caller's image), mapped by  *)
(* the harness from each scale's frame through known ground-truth landmarks. *)
(* The machine below is the abstract fit of MultiScale.tla: it follows each  *)
(* recorded event if some behaviour explains it and otherwise records the    *)
(* violated clause.  Every trace yields exactly one verdict.                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Tol
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,      \* index of the trace being followed
          e,      \* index of the next event
          cur,    \* current shape (caller's frame)
          sc, k,  \* scale, iterations done at this scale
          hist,   \* states of the whole fit, caller's frame
          recs,   \* reconstructions of the starting shapes
          iters,  \* iterations per finished scale
          conv,   \* last update: "small" (within the tolerance), "big", or "edge" (undecidable)
          phase, bad
vars == <<t, e, cur, sc, k, hist, recs, iters, conv, phase, bad>>

Tr == Traces[t]
Ev == Tr.ev[e]
Head0 == Tr.head

AbsI(a) == IF a < 0 THEN -a ELSE a
CloseP(p, q) == AbsI(p[1] - q[1]) <= Tol /\ AbsI(p[2] - q[2]) <= Tol
Close(s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : CloseP(s[i], r[i])

Reset(i) == /\ t' = i /\ e' = 1 /\ sc' = 0 /\ k' = 0 /\ hist' = <<>> /\ recs' = <<>>
            /\ iters' = <<>> /\ conv' = "big" /\ phase' = "idle" /\ bad' = {}
            /\ cur' = <<>>

Init == /\ t = 1 /\ e = 1 /\ sc = 0 /\ k = 0 /\ hist = <<>> /\ recs = <<>> /\ iters = <<>>
        /\ conv = "big" /\ phase = "idle" /\ bad = {} /\ cur = <<>>

If(c, x) == IF c THEN {} ELSE {x}

\* the optimiser of the next scale is called with the shape the previous scale
\* ended with (the caller's start at the first scale)
Call == /\ Ev.e = "call"
        /\ LET from == IF sc = 0 THEN Head0.start ELSE cur IN
           /\ bad' = bad \cup If(phase \in {"idle", "returned"}, "call-order")
                 \cup If(Ev.sc = sc + 1, "scale-order")
                 \cup If(Close(Ev.start, from),
                         IF sc = 0 THEN "start-shape" ELSE "hand-off")
                 \cup If(Ev.sc > Head0.n \/ Head0.caps[sc + 1] = -1
                         \/ Ev.cap = Head0.caps[sc + 1], "budget-per-scale")
           /\ hist' = IF sc = 0 /\ Head0.init THEN <<Ev.start>> ELSE hist
        /\ cur' = Ev.start
        /\ sc' = sc + 1 /\ k' = 0 /\ conv' = "big"
        /\ phase' = IF Head0.par THEN "reconstruct" ELSE "iterate"
        /\ UNCHANGED <<recs, iters>>

\* first state a parametric optimiser reports: its reconstruction of the start
Reconstruct == /\ Ev.e = "state" /\ phase = "reconstruct"
               /\ cur' = Ev.p /\ hist' = Append(hist, Ev.p) /\ recs' = Append(recs, Ev.p)
               /\ phase' = "iterate" /\ bad' = bad \cup If(Ev.fin, "not-finite")
               /\ UNCHANGED <<sc, k, iters, conv>>

Iterate == /\ Ev.e = "state" /\ phase # "reconstruct"
           /\ cur' = Ev.p /\ hist' = Append(hist, Ev.p)
           /\ k' = k + 1
           /\ conv' = Ev.small
           /\ bad' = bad \cup If(phase = "iterate", "state-order")
                 \cup If(Head0.caps[sc] = -1 \/ k + 1 <= Head0.caps[sc], "budget-exceeded")
                 \cup If(conv # "small" \/ k = 0, "continued-after-convergence")
                 \cup If(Ev.fin, "not-finite")
           /\ UNCHANGED <<sc, recs, iters, phase>>

\* stopping before the budget is spent requires convergence
Return == /\ Ev.e = "return"
          /\ bad' = bad \cup If(phase = "iterate", "return-order")
                \cup If(Ev.n = k, "scale-n-iters")
                \cup If(Head0.caps[sc] = -1 \/ k = Head0.caps[sc] \/ conv # "big", "stopped-early")
                \cup If(Head0.stages[sc] = -1 \/ k = Head0.stages[sc], "stage-count")
          /\ iters' = Append(iters, k) /\ phase' = "returned"
          /\ UNCHANGED <<cur, sc, k, hist, recs, conv>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
AllClose(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i])

\* what the returned result must say about this history
Result == /\ Ev.e = "result"
          /\ LET total == Sum(iters)
                 states == total + (IF Head0.par THEN Head0.n ELSE 0) IN
             bad' = bad
               \cup If(phase = "returned" /\ sc = Head0.n, "all-scales-run")
               \cup If(Len(Ev.shapes) = Len(hist), "n-shapes")
               \cup If(Len(Ev.shapes) # Len(hist) \/ AllClose(Ev.shapes, hist), "shape-frame")
               \cup If(Close(Ev.final, cur), "final-shape")
               \cup If(Ev.hasinit = Head0.init, "initial-shape-presence")
               \cup If(~Head0.init \/ ~Ev.hasinit \/ Close(Ev.initial, Head0.start), "initial-shape")
               \cup If(Ev.hasgt = Head0.gt, "gt-presence")
               \cup If(~Head0.gt \/ ~Ev.hasgt \/ Close(Ev.gt, Head0.gtp), "gt-shape")
               \cup If(Ev.nit = total, "n-iters")
               \cup If(Ev.nper = iters, "n-iters-per-scale")
               \cup If(Ev.nsp = -1 \/ Ev.nsp = states, "n-shape-parameters")
               \cup If(Ev.nap = -1 \/ Ev.nap = states, "n-appearance-parameters")
               \cup If(~Head0.par \/ AllClose(Ev.recs, recs), "reconstructions")
               \cup If(Ev.ncost = -1 \/ Ev.ncost = (IF Head0.coststates THEN states ELSE total),
                       "n-costs")
               \cup If(Ev.costs = Head0.costs \/ ~Head0.costsok, "costs-presence")
               \cup If(Ev.dispok, "displacements")
               \cup If(Ev.errok, "errors")
               \cup If(Ev.redok, "to-result")
               \cup If(Ev.imok, "result-image")
          /\ phase' = "done"
          /\ UNCHANGED <<cur, sc, k, hist, recs, iters, conv>>

Step == /\ t <= Len(Traces) /\ e <= Len(Tr.ev)
        /\ (Call \/ Reconstruct \/ Iterate \/ Return \/ Result)
        /\ t' = t /\ e' = e + 1
Verdict == /\ t <= Len(Traces) /\ e = Len(Tr.ev) + 1
           /\ Reset(t + 1)
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars

BadSeq(S) == LET RECURSIVE f(_)
                 f(x) == IF x = {} THEN <<>> ELSE
                         LET y == CHOOSE y \in x : TRUE IN <<y>> \o f(x \ {y})
             IN f(S)
Emit == (t <= Len(Traces) /\ e = Len(Tr.ev) + 1) =>
   CSVWrite("%1$s", <<ToJson([i |-> t, bad |-> BadSeq(bad \cup If(phase = "done", "incomplete"))])>>,
            IOEnv.OUT)
\* the machine itself
TypeOK == /\ k >= 0 /\ sc >= 0 /\ Len(iters) <= sc
          /\ Len(hist) = (IF Head0.init /\ sc > 0 THEN 1 ELSE 0) + Len(recs) + Sum(iters)
                           + (IF phase \in {"iterate", "reconstruct"} THEN k ELSE 0)
TypeInv == t <= Len(Traces) => TypeOK
=============================================================================
