------------------------------ MODULE Spelling ------------------------------
(* Multi-scale parameters: every spelling a caller may use for one parameter, *)
(* its normal form (one entry per scale) or its rejection.  A spelling is     *)
(* built entry by entry, then handed to the validator.                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Validators, MaxScales, MaxLen

VARIABLES v, n, kind, items, phase, verdict
vars == <<v, n, kind, items, phase, verdict>>

\* tokens that may occur in a spelling of each parameter, good and bad
Alphabet(x) ==
  CASE x = "scales"    -> {"f05", "i1", "str", "none"}
    [] x = "multi"     -> {"f05", "i1", "str", "none"}
    [] x = "callable"  -> {"fn1", "fn2", "i1", "none"}
    [] x = "patch"     -> {"pairA", "pairB", "i5", "i7", "str"}
    [] x = "comps"     -> {"none", "i3", "i0", "im1", "f05", "f0", "f1", "f15", "fm1", "str"}
    [] x = "iters"     -> {"i7", "i5", "i0", "none", "str"}
    [] x = "sampling"  -> {"none", "i2", "arr", "str", "f05"}
    [] x = "ugraph"    -> {"none", "ugraph", "tree", "i1"}
    [] x = "dgraph"    -> {"none", "dgraph", "tree", "ugraph"}
    [] x = "cls"       -> {"cls", "sub", "partial", "other", "i1"}
Good(x) ==
  CASE x = "scales"    -> {"f05", "i1"}
    [] x = "multi"     -> {"f05", "i1"}
    [] x = "callable"  -> {"fn1", "fn2"}
    [] x = "patch"     -> {"pairA", "pairB"}
    [] x = "comps"     -> {"none", "i3", "f05", "f0", "f1"}
    [] x = "iters"     -> {"i7", "i5", "i0"}
    [] x = "sampling"  -> {"none", "i2", "arr"}
    [] x = "ugraph"    -> {"none", "ugraph"}
    [] x = "dgraph"    -> {"none", "dgraph", "tree"}
    [] x = "cls"       -> {"cls", "sub", "partial"}
\* parameters for which a tuple is as good as a list
Tuples(x) == x \notin {"ugraph", "dgraph"}

Rep(t, k) == [i \in 1..k |-> t]
Reject == [ok |-> FALSE, out |-> <<>>]
Accept(s) == [ok |-> TRUE, out |-> s]
AllGood == \A i \in 1..Len(items) : items[i] \in Good(v)

\* the normal form
Normal ==
  IF kind = "atom"
  THEN IF items[1] \in Good(v)
       THEN Accept(Rep(items[1], IF v = "scales" THEN 1 ELSE n)) ELSE Reject
  ELSE IF kind = "tuple" /\ ~Tuples(v) THEN Reject
  ELSE IF v = "patch" /\ Len(items) = 2 /\ \A i \in 1..2 : items[i] \in {"i5", "i7"}
       THEN Accept(Rep("self", n))          \* two numbers are one patch shape
  ELSE IF ~AllGood \/ items = <<>> THEN Reject
  ELSE IF v = "scales" THEN Accept(items)
  ELSE IF Len(items) = 1 THEN Accept(Rep(items[1], n))
  ELSE IF Len(items) = n THEN Accept(items)
  ELSE Reject
\* one number of iterations (or a list of just one, over several scales) is a
\* total to be shared out
Shared == v = "iters" /\ (kind = "atom" \/ (Len(items) = 1 /\ n > 1))

Init == /\ v \in Validators /\ n \in 1..MaxScales
        /\ kind \in {"atom", "list", "tuple"} /\ items = <<>>
        /\ phase = "spell" /\ verdict = [ok |-> FALSE, out |-> <<>>]
        /\ (v = "scales") => n = 1
Spell == /\ phase = "spell" /\ Len(items) < (IF kind = "atom" THEN 1 ELSE MaxLen)
         /\ \E t \in Alphabet(v) : items' = Append(items, t)
         /\ UNCHANGED <<v, n, kind, phase, verdict>>
Validate == /\ phase = "spell" /\ (kind = "atom" => Len(items) = 1)
            /\ verdict' = Normal /\ phase' = "done"
            /\ UNCHANGED <<v, n, kind, items>>
Next == Spell \/ Validate
Spec == Init /\ [][Next]_vars

Done == phase = "done"
\* whatever is accepted has one valid entry per scale, in the caller's order
OnePerScale == (Done /\ verdict.ok) =>
   /\ Len(verdict.out) = (IF v = "scales" THEN Len(items) ELSE n)
   /\ \A i \in 1..Len(verdict.out) : verdict.out[i] \in Good(v) \cup {"self"}
   /\ (Len(items) = Len(verdict.out) /\ verdict.out[1] # "self") => verdict.out = items
\* every documented spelling is accepted
SingleAccepted == (Done /\ kind = "atom" /\ items[1] \in Good(v)) => verdict.ok
ListAccepted == (Done /\ kind = "list" /\ AllGood /\ Len(items) = n) => verdict.ok
\* spelling the same value once, in a one-entry list or once per scale is the same
SameMeaning == (Done /\ verdict.ok /\ v # "scales" /\ Len(items) = 1)
                 => verdict.out = Rep(items[1], n)

Emit == Done => CSVWrite("%1$s", <<ToJson([v |-> v, n |-> n, kind |-> kind, items |-> items,
                   ok |-> verdict.ok, out |-> verdict.out, shared |-> Shared])>>, IOEnv.OUT)
=============================================================================
