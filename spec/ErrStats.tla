------------------------------ MODULE ErrStats ------------------------------
(* Statistics of a multiset of errors.  Errors arrive one at a time; then a   *)
(* range [lo, hi] with a step is chosen and every statistic is the exact      *)
(* rational its definition gives.  All quantities are in integer units.       *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS MaxN, MaxE, MaxHi, MaxStep

VARIABLES errs, rng, phase
vars == <<errs, rng, phase>>

Init == errs = <<>> /\ rng = [lo |-> 0, hi |-> 1, st |-> 1] /\ phase = "collect"
\* (kept sorted: the statistics do not depend on the order of arrival)
Arrive == /\ phase = "collect" /\ Len(errs) < MaxN
          /\ \E e \in (IF errs = <<>> THEN 0 ELSE errs[Len(errs)])..MaxE : errs' = Append(errs, e)
          /\ UNCHANGED <<rng, phase>>
Choose == /\ phase = "collect" /\ errs # <<>>
          /\ \E lo \in 0..2, hi \in 1..MaxHi, st \in 1..MaxStep :
               lo < hi /\ rng' = [lo |-> lo, hi |-> hi, st |-> st]
          /\ phase' = "done" /\ UNCHANGED errs
Next == Arrive \/ Choose
Spec == Init /\ [][Next]_vars
Done == phase = "done"

N == Len(errs)
\* bins lo, lo+st, ... up to the first that reaches hi
NInt == -((-(rng.hi - rng.lo)) \div rng.st)
Bins == [i \in 1..(NInt + 1) |-> rng.lo + (i - 1) * rng.st]
Below(x) == Cardinality({i \in 1..N : errs[i] <= x})
Ced == [i \in 1..Len(Bins) |-> R(Below(Bins[i]), N)]
\* composite Simpson rule; an odd number of intervals ends with Cartwright's
\* correction for the last interval, a single one is a trapezoid
RECURSIVE Simp(_, _)
Simp(f, k) == IF k = 0 THEN Zero
              ELSE Add(Simp(f, k - 2), Mul(R(1, 3), Add(f[k - 1], Add(Mul(I(4), f[k]), f[k + 1]))))
Integral(f) ==
  LET k == Len(f) - 1 IN
  IF k = 1 THEN Mul(R(1, 2), Add(f[1], f[2]))
  ELSE IF k % 2 = 0 THEN Simp(f, k)
  ELSE Add(Simp(f, k - 1),
           Add(Mul(R(5, 12), f[k + 1]), Sub(Mul(R(2, 3), f[k]), Mul(R(1, 12), f[k - 1]))))
Auc == Div(Mul(I(rng.st), Integral(Ced)), I(rng.hi))
Fr == Sub(One, Ced[Len(Ced)])
\* order statistics
Sorted(s) == CHOOSE t \in [1..Len(s) -> {s[i] : i \in 1..Len(s)}] :
                /\ \A i \in 1..(Len(t) - 1) : t[i] <= t[i + 1]
                /\ \A x \in {s[i] : i \in 1..Len(s)} :
                     Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(s) : t[i] = x})
Median2(t) == LET k == Len(t) IN   \* twice the median of a sorted sequence
   IF k % 2 = 1 THEN 2 * t[(k + 1) \div 2] ELSE t[k \div 2] + t[k \div 2 + 1]
Med2 == Median2(errs)
Mad4 == Median2(Sorted([i \in 1..N |-> Abs(2 * errs[i] - Med2)]))
Mean == R(ISumSeq(errs), N)
Var == Sub(R(ISumSeq([i \in 1..N |-> errs[i] * errs[i]]), N), Mul(Mean, Mean))

CedMonotone == Done => \A i \in 1..(Len(Ced) - 1) : Le(Ced[i], Ced[i + 1])
CedRange == Done => \A i \in 1..Len(Ced) : Le(Zero, Ced[i]) /\ Le(Ced[i], One)
FailureConsistent == Done => /\ Le(Zero, Fr) /\ Le(Fr, One)
                             /\ Num(Fr) = 0 <=> errs[N] <= Bins[Len(Bins)]
AucRange == Done => Le(Zero, Auc) /\ Le(Auc, R(Bins[Len(Bins)] - rng.lo, rng.hi))
VarNonNegative == Done => Le(Zero, Var)

Emit == Done => CSVWrite("%1$s", <<ToJson([errs |-> errs, lo |-> rng.lo, hi |-> rng.hi,
  st |-> rng.st, bins |-> Bins, ced |-> Ced, auc |-> Auc, fr |-> Fr, mean |-> Mean, var |-> Var,
  med |-> R(Med2, 2), mad |-> R(Mad4, 4), max |-> errs[N]])>>, IOEnv.OUT)
=============================================================================
