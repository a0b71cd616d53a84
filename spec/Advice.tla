------------------------------- MODULE Advice -------------------------------
(* What a trainer is told before its training starts: a reference size that   *)
(* is too small is refused; a mean that becomes the reference after only the  *)
(* first batch, and images without triangles of their own that are to be      *)
(* warped triangle by triangle, are warned about.  Advice is given once and   *)
(* only for what the trainer does have to make up.                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Trainers,    \* by name: can it be given batches, a reference; warps "pieces", "spline", "none"
          Diagonals    \* ten times the diagonal, 0: none given

VARIABLES who, diagonal, triangles, reference, batched, phase, told, refused
vars == <<who, diagonal, triangles, reference, batched, phase, told, refused>>

Init == /\ who \in DOMAIN Trainers /\ diagonal \in Diagonals /\ triangles \in BOOLEAN
        /\ reference \in {"none", "given"} /\ batched \in {b \in BOOLEAN : b => Trainers[who].batches}
        /\ phase = "asked" /\ told = {} /\ refused = FALSE
        \* a reference given has triangles of its own
        /\ Trainers[who].references \/ reference = "none"
Check == /\ phase = "asked"
         /\ refused' = (diagonal # 0 /\ diagonal < 200)
         /\ phase' = IF refused' THEN "over" ELSE "checked"
         /\ UNCHANGED <<who, diagonal, triangles, reference, batched, told>>
Advise == /\ phase = "checked" /\ phase' = "over"
          /\ told' = (IF batched /\ reference = "none" THEN {"batch"} ELSE {})
                     \cup (IF ~triangles /\ reference = "none" /\ Trainers[who].warps = "pieces" THEN {"triangles"} ELSE {})
          /\ UNCHANGED <<who, diagonal, triangles, reference, batched, refused>>
Next == Check \/ Advise
Spec == Init /\ [][Next]_vars
NothingAfterRefusal == refused => told = {}
WithReference == reference = "given" => told = {}
Done == phase = "over"
Emit == Done => CSVWrite("%1$s", <<ToJson([who |-> who, diagonal |-> diagonal, triangles |-> triangles, reference |-> reference,
                        batched |-> batched, told |-> told, refused |-> refused])>>, IOEnv.OUT)
=============================================================================
