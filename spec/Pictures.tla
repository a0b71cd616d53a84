------------------------------ MODULE Pictures -------------------------------
(* What is drawn and printed of a fitting result (Result.tla) has to be the   *)
(* result: a viewer is handed the finished fit and asked for pictures, curves *)
(* and summaries one after another.  Every picture is a sequence of states,   *)
(* each with the name it goes by; every curve is a sequence of values, one    *)
(* per state, move or cost; asking changes nothing.                           *)
EXTENDS Result

CONSTANTS Asks     \* the questions, in the order asked

VARIABLES asked    \* answers so far

Init2 == Init /\ asked = <<>>
N == Len(Shapes)
\* an iterative result shows what it visited
Iterative == kind # "plain"

\* the states a request is about, by position: everything, one of them, a list
Picked(w) == CASE w = "all" -> [i \in 1..N |-> i]
               [] w = "first" -> <<1>>
               [] w = "last" -> <<N>>
               [] w = "middle" -> <<(N + 1) \div 2>>
               [] w = "ends" -> IF N = 1 THEN <<1>> ELSE <<1, N>>
               [] w = "backwards" -> [i \in 1..N |-> N + 1 - i]
               [] w = "odd" -> [i \in 1..((N + 1) \div 2) |-> 2 * i - 1]
               [] w = "rest" -> [i \in 1..(N - 1) |-> i + 1]
               [] OTHER -> <<>>
\* the name of the state at a position: the shape the fit started from, the
\* model's reconstruction of the start of a scale, the shape it ended at, or
\* the number of the iteration it is the outcome of, counted over all scales
IsRec(t) == \E i \in 1..Len(per) : per[i].rec = <<t>>
Level(t) == CHOOSE i \in 1..Len(per) : t \in {per[i].states[j] : j \in 1..Len(per[i].states)}
IterOf(t) == Cardinality({u \in 1..t : ~IsRec(u) /\ \A i \in 1..Len(per) : per[i].start # <<u>>})
Name(i) == LET t == Shapes[i] IN
   IF i = 1 /\ Start0 # <<>> THEN [label |-> "Initial", n |-> 0]
   ELSE IF IsRec(t) THEN [label |-> "Reconstruction", n |-> IF Len(per) > 1 THEN Level(t) ELSE 0]
   ELSE IF i = N THEN [label |-> "Final", n |-> 0]
   ELSE [label |-> "iteration", n |-> IterOf(t)]
Picture(ix) == [k \in 1..Len(ix) |-> [token |-> Shapes[ix[k]], label |-> Name(ix[k]).label, n |-> Name(ix[k]).n]]

\* final, initial and ground-truth shape; token 0 is the ground truth
Overview(f, i, g) ==
  (IF f THEN <<[token |-> Shapes[N], label |-> "Final", n |-> 0]>> ELSE <<>>) \o
  (IF i /\ Start0 # <<>> THEN <<[token |-> Start0[1], label |-> "Initial", n |-> 0]>> ELSE <<>>) \o
  (IF g /\ opt.gt THEN <<[token |-> 0, label |-> "Groundtruth", n |-> 0]>> ELSE <<>>)

No == [answer |-> "ValueError"]
Answer(a) ==
  CASE a.q = "iterations" -> [answer |-> "picture", at |-> [k \in 1..Len(Picked(a.w)) |-> Picked(a.w)[k] - 1], items |-> Picture(Picked(a.w))]
    [] a.q = "overview" -> [answer |-> "picture", items |-> Overview(a.f, a.i, a.g)]
    [] a.q = "errors" -> IF opt.gt THEN [answer |-> "curve", of |-> [k \in 1..N |-> <<Shapes[k], 0>>]] ELSE No
    [] a.q = "displacements" -> [answer |-> "curve", of |-> [k \in 1..(N - 1) |-> <<Shapes[k], Shapes[k + 1]>>]]
    [] a.q = "costs" -> IF opt.costs = "none" THEN No ELSE [answer |-> "curve", of |-> Costs]
    [] a.q = "summary" -> [answer |-> "lines",
          initial |-> IF opt.gt /\ Start0 # <<>> THEN <<Start0[1]>> ELSE <<>>,
          \* the reconstruction is reported where there is a start it is one of
          rec |-> IF opt.gt /\ Start0 # <<>> /\ Par(kind) THEN <<Recs[1]>> ELSE <<>>,
          final |-> IF opt.gt THEN <<Shapes[N]>> ELSE <<>>]
Able(a) == Iterative \/ a.q \in {"overview", "summary"}
Ask == /\ phase = "done" /\ Len(asked) < Len(Asks)
       /\ LET a == Asks[Len(asked) + 1] IN
          asked' = Append(asked, IF Able(a) THEN TLCEval(Answer(a)) ELSE [answer |-> "none"])
       /\ UNCHANGED <<kind, opt, phase, sc, per, next>>
Next2 == (Next /\ UNCHANGED asked) \/ Ask
Spec2 == Init2 /\ [][Next2]_<<vars, asked>>

\* ---------------------------------------------------------- properties ----
\* everything that was visited is in the full picture, once, in order, and
\* different states go by different names
Complete == Done => \A i, j \in 1..N : i < j => Name(i) # Name(j)
\* the iterations are numbered from one on, without gaps
Numbered == Done => LET s == {Name(i).n : i \in {i \in 1..N : Name(i).label = "iteration"}}
                        m == Cardinality({i \in 1..N : Name(i).label = "iteration"}) IN
   s = 1..m /\ m + (IF \E i \in 1..N : Name(i).label = "Final" THEN 1 ELSE 0) = Sum(NPer)
\* exactly one reconstruction per scale of a parametric fit
Reconstructions == Done => Cardinality({i \in 1..N : Name(i).label = "Reconstruction"}) = (IF Par(kind) THEN Len(per) ELSE 0)
EmitPictures == (Done /\ Len(asked) = Len(Asks)) =>
   CSVWrite("%1$s", <<ToJson([kind |-> kind, opt |-> opt, per |-> per,
      perCosts |-> [i \in 1..Len(per) |-> CostTokens(i)], asked |-> asked])>>, IOEnv.OUT)
=============================================================================
