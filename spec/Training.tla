------------------------------ MODULE Training ------------------------------
(* Delivery of training samples.  Samples come in calls: one call that trains *)
(* and then calls that increment; every call brings a list of samples, whole  *)
(* or cut into batches, and (increments) a forgetting factor.  Samples are    *)
(* consumed batch by batch.  The model keeps, per sample, its weight in the   *)
(* means of everything that has been seen.                                    *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS NImages, MinFirst,   \* samples that a model can be built from
           TrainLists, IncLists, BatchSizes,  \* 0: the whole list at once
          Forget,                                     \* set of <<num, den>>
          MaxIncs, OwnReference                       \* reference shape given by the caller

VARIABLES calls,    \* what has been called
          pending,  \* samples of the last call not yet consumed
          n, w,     \* samples seen, weight of every image in the means
          ref,      \* the samples whose mean is the reference shape
          batches,  \* batches consumed, in order: [ids, kind, n, w]
          loud,     \* progress is reported (verbose) ...
          said      \* ... for this many batches
vars == <<calls, pending, n, w, ref, batches, loud, said>>

Init == calls = <<>> /\ pending = <<>> /\ n = 0 /\ w = [i \in 1..NImages |-> Zero] /\ ref = <<>> /\ batches = <<>>
        /\ loud \in BOOLEAN /\ said = 0
First(l, b) == IF b = 0 \/ b > Len(l) THEN Len(l) ELSE b
Count(l, i) == Cardinality({p \in 1..Len(l) : l[p] = i})

Train == /\ calls = <<>>
         /\ \E l \in TrainLists, b \in BatchSizes :
              /\ First(l, b) >= MinFirst
              /\ calls' = <<[op |-> "train", ids |-> l, batch |-> b, f |-> One]>> /\ pending' = l
         /\ UNCHANGED <<n, w, ref, batches, loud, said>>
Increment == /\ calls # <<>> /\ pending = <<>> /\ Len(calls) <= MaxIncs
             /\ \E l \in IncLists, b \in BatchSizes, f \in Forget :
                  /\ b # 0 => b < Len(l)   \* otherwise the whole list
                  /\ calls' = Append(calls, [op |-> "increment", ids |-> l, batch |-> b, f |-> f]) /\ pending' = l
             /\ UNCHANGED <<n, w, ref, batches, loud, said>>
Consume == /\ pending # <<>>
           /\ LET c == calls[Len(calls)]
                  k == First(pending, c.batch)
                  B == SubSeq(pending, 1, k)
                  old == Mul(c.f, I(n))
                  tot == Add(old, I(k))
                  nw == TLCEval([i \in 1..NImages |-> Div(Add(Mul(old, w[i]), I(Count(B, i))), tot)]) IN
              /\ pending' = SubSeq(pending, k + 1, Len(pending))
              /\ n' = n + k /\ w' = nw
              /\ ref' = IF batches = <<>> /\ ~OwnReference THEN B ELSE ref
              /\ batches' = Append(batches, [ids |-> B, call |-> Len(calls), n |-> n + k, w |-> nw,
                                             kind |-> IF batches = <<>> THEN "build" ELSE "increment"])
              /\ said' = IF loud THEN said + 1 ELSE said
           /\ UNCHANGED <<calls, loud>>
Next == Train \/ Increment \/ Consume
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Given == Cat([c \in 1..Len(calls) |-> calls[c].ids])
Used == Cat([b \in 1..Len(batches) |-> batches[b].ids])
\* every sample exactly once and in order
OnceInOrder == Used \o pending = Given
CountsAll == n = Len(Used)
Weights == n > 0 => SumSeq(w) = One
\* without forgetting, the mean is the plain mean, however it was delivered
Plain == (n > 0 /\ \A c \in 1..Len(calls) : calls[c].f = One) => \A i \in 1..NImages : w[i] = R(Count(Used, i), n)
OneBuild == \A b \in 1..Len(batches) : (batches[b].kind = "build") = (b = 1)
\* reporting progress has no part in any of this; a silent training says nothing
Silent == ~loud => said = 0
RefFixed == [][ref # <<>> => ref' = ref]_vars
Done == calls # <<>> /\ pending = <<>>
Emit == Done => CSVWrite("%1$s", <<ToJson([calls |-> calls, batches |-> batches, ref |-> ref, said |-> said])>>, IOEnv.OUT)
=============================================================================
