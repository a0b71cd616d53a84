------------------------------ MODULE History -------------------------------
(* Histories of calls on one fitter object.  The memory a fit may touch is    *)
(* explicit: temporary landmark groups on the caller's image, the optimiser's *)
(* working state, the pose it leaves the shared model in, the state that is    *)
(* precomputed when a fitter is constructed on that (possibly used) model, and *)
(* the results handed out earlier.  Every call is a small protocol; the invariants say    *)
(* what a caller may rely on between calls.  The caller may also overwrite    *)
(* his image and shapes in place ("edit"): later answers are those for the     *)
(* new content, earlier ones stay.  He may do what he likes with a result     *)
(* he got ("scribble"): it is his alone.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Calls,    \* sequence of call descriptions [op, im, bad]
          Depth, Images

VARIABLES hist, phase, cur, groups, work, pose, pre, ver, outs
vars == <<hist, phase, cur, groups, work, pose, pre, ver, outs>>

C == Calls[cur]
\* what construction derives from a model left in a pose: the model's own
\* content only
Precomputed(left) == 0
Init == /\ hist = <<>> /\ phase = "idle" /\ cur = 0
        /\ groups = [i \in 1..Images |-> {}]   \* temporary groups on each image
        /\ work = 0                            \* whose data the working state holds
        /\ pose = 0                            \* the call whose shape the model holds
        /\ ver = [i \in 1..Images |-> 0]       \* the content of each image and its shapes
        /\ pre = Precomputed(0) /\ outs = <<>>

Begin(c) == /\ phase = "idle" /\ Len(hist) < Depth
            /\ cur' = c /\ hist' = Append(hist, c)
            /\ phase' = CASE Calls[c].op = "query" -> "run" [] Calls[c].op = "construct" -> "build"
                        [] Calls[c].op = "edit" -> "edit"
                        [] Calls[c].op = "scribble" -> "scribble" [] OTHER -> "attach"
            /\ UNCHANGED <<groups, work, pose, pre, ver, outs>>
Attach == /\ phase = "attach"
          /\ groups' = [groups EXCEPT ![C.im] = {"tmp"}]
          /\ phase' = "detach" /\ UNCHANGED <<hist, cur, work, pose, pre, ver, outs>>
\* the per-scale images carry the landmarks on; the caller's image is cleaned
Detach == /\ phase = "detach"
          /\ groups' = [groups EXCEPT ![C.im] = {}]
          /\ phase' = IF C.bad THEN "raise" ELSE "run"
          /\ UNCHANGED <<hist, cur, work, pose, pre, ver, outs>>
\* the optimiser starts by loading its working state from the arguments: what
\* it computes is a function of the arguments and the precomputed state only
Run == /\ phase = "run"
       /\ work' = cur /\ pose' = cur
       /\ outs' = Append(outs, [call |-> cur, ver |-> ver[C.im], value |-> <<pre, work', ver[C.im]>>])
       /\ phase' = "idle" /\ UNCHANGED <<hist, cur, groups, pre, ver>>
\* a new fitter on the same model takes the place of the one in use
Build == /\ phase = "build" /\ pre' = Precomputed(pose) /\ work' = 0
         /\ outs' = Append(outs, [call |-> cur, ver |-> 0, value |-> <<"constructed">>])
         /\ phase' = "idle" /\ UNCHANGED <<hist, cur, groups, pose, ver>>
Raise == /\ phase = "raise" /\ outs' = Append(outs, [call |-> cur, ver |-> ver[C.im], value |-> <<"ValueError">>])
         /\ phase' = "idle" /\ UNCHANGED <<hist, cur, groups, work, pose, pre, ver>>
Edit == /\ phase = "edit" /\ ver' = [ver EXCEPT ![C.im] = 1 - @]
        /\ outs' = Append(outs, [call |-> cur, ver |-> 0, value |-> <<"edited">>])
        /\ phase' = "idle" /\ UNCHANGED <<hist, cur, groups, work, pose, pre>>
Scribble == /\ phase = "scribble" /\ outs' = Append(outs, [call |-> cur, ver |-> 0, value |-> <<"scribbled">>])
            /\ phase' = "idle" /\ UNCHANGED <<hist, cur, groups, work, pose, pre, ver>>

Next == (\E c \in 1..Len(Calls) : Begin(c)) \/ Attach \/ Detach \/ Run \/ Build \/ Edit \/ Scribble \/ Raise
Spec == Init /\ [][Next]_vars

Idle == phase = "idle"
InputsUntouched == Idle => \A i \in 1..Images : groups[i] = {}
PrecomputedConstant == pre = 0
\* equal calls on equal content, equal answers, wherever they occur in the history
Deterministic == \A i, j \in 1..Len(outs) :
                    outs[i].call = outs[j].call /\ outs[i].ver = outs[j].ver => outs[i].value = outs[j].value
\* an answer once given never changes
OutputsStable == [][\A i \in 1..Len(outs) : Len(outs') >= i /\ outs'[i] = outs[i]]_vars

Emit == (Idle /\ Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
