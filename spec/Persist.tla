------------------------------ MODULE Persist -------------------------------
(* Persisted fitters.                                                         *)
(*  "load"  the life of one named fitter's file on disk under a history of    *)
(*          load attempts, each with at most one fault: the connection, any   *)
(*          piece of the transfer (error, silent end, full disk, death of the *)
(*          process), a second process loading in the middle of the transfer, *)
(*          a damaged file on the server, death while unpickling              *)
(*  "wrap"  the pickled wrapper: stored and call-time arguments, and the      *)
(*          frame of the reported shapes when the image is preprocessed       *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Mode, Pieces, Attempts, StartFiles, Keys, Values, Moves, Starts

VARIABLES file, proc, log, start, c
vars == <<file, proc, log, start, c>>

\* --------------------------------------------------------------- loading ---
Damaged == {"truncated", "garbage", "empty", "raises", "nobuild", "nocall"}
OnServer == {"raises", "nobuild", "nocall"}
Faults == {[kind |-> k, at |-> 0] : k \in {"none", "connect", "dieload"} \cup OnServer}
          \cup [kind : {"read", "interrupt", "cut", "die", "other"}, at : 0..(Pieces - 1)]
          \cup [kind : {"disk"}, at : 1..(Pieces - 1)]

Idle == [pc |-> "idle", fault |-> [kind |-> "none", at |-> 0], got |-> 0, net |-> 0]
Fault == proc.fault
Hits(k) == Fault.kind = k /\ Fault.at = proc.got

Done(outcome, f, net) ==
  /\ file' = f
  /\ proc' = Idle
  /\ log' = Append(log, [fault |-> Fault, outcome |-> outcome, file |-> f, net |-> net])
  /\ UNCHANGED <<start, c>>
Go(p) == proc' = p /\ UNCHANGED <<log, start, c>>

Begin == /\ proc.pc = "idle" /\ Len(log) <= Attempts
         /\ \E f \in Faults :
              /\ (Len(log) = Attempts) => f.kind = "none"       \* the last attempt is left alone
              /\ Go([pc |-> IF file = "none" THEN "fetch" ELSE "load", fault |-> f, got |-> 0, net |-> 0])
         /\ UNCHANGED file
Connect == /\ proc.pc = "fetch" /\ proc.net = 0
           /\ IF Fault.kind = "connect" THEN Done("error", "none", 1)
              ELSE Go([proc EXCEPT !.net = 1]) /\ UNCHANGED file
\* the transfer touches nothing that another load would look at
Receive == /\ proc.pc = "fetch" /\ proc.net > 0 /\ proc.got < Pieces
           /\ IF Hits("read") \/ Hits("interrupt") \/ Hits("disk") THEN Done("error", file, proc.net)
              ELSE IF Hits("die") THEN Done("dead", file, proc.net)
              ELSE IF Hits("cut") THEN /\ file' = "truncated"
                                       /\ Go([proc EXCEPT !.pc = "load"])
              ELSE /\ file' = IF Hits("other") THEN "good" ELSE file   \* the other process finishes first
                   /\ Go([proc EXCEPT !.got = @ + 1])
Install == /\ proc.pc = "fetch" /\ proc.got = Pieces
           /\ file' = IF Fault.kind \in OnServer THEN Fault.kind ELSE "good"
           /\ Go([proc EXCEPT !.pc = "load"])
Load == /\ proc.pc = "load"
        /\ IF Fault.kind = "dieload" /\ file = "good" THEN Done("dead", file, proc.net)
           ELSE IF file = "good" THEN Done("fitter", file, proc.net)
           ELSE Done("error", "none", proc.net)

\* what is claimed: no attempt leaves a damaged file behind, however it ends
Trust == \A i \in 1..Len(log) : log[i].file \in {"none", "good"}
Recovers == \A i \in 1..Len(log) :
  LET before == IF i = 1 THEN start ELSE log[i - 1].file IN
  (log[i].fault.kind = "none" /\ before \in {"none", "good"}) => log[i].outcome = "fitter"
LocalFirst == \A i \in 1..Len(log) :
  LET before == IF i = 1 THEN start ELSE log[i - 1].file IN
  /\ (before # "none") => log[i].net = 0
  /\ (before = "good" /\ log[i].outcome # "dead") => log[i].outcome = "fitter"
Pending == proc.pc # "idle" => proc.got <= Pieces

\* -------------------------------------------------------------- wrapping ---
Args == UNION {[K -> Values] : K \in SUBSET Keys}
Effective(stored, call) == call @@ stored
\* preprocessing is x |-> s*Rot(q)*x + t (new frame from old one is its inverse)
Rot(q, v) == CASE q = 0 -> v [] q = 1 -> <<-v[2], v[1]>> [] q = 2 -> <<-v[1], -v[2]>> [] OTHER -> <<v[2], -v[1]>>
To(m, v) == LET r == Rot(m.q, v) IN <<m.s * r[1] + m.t[1], m.s * r[2] + m.t[2]>>
Back(m, v) == LET w == Rot((4 - m.q) % 4, <<v[1] - m.t[1], v[2] - m.t[2]>>) IN <<R(w[1], m.s), R(w[2], m.s)>>
\* the wrapped fitter moves every point by d per iteration in its own frame,
\* so in the caller's frame a point moves by s*Rot(q)*d
Seen(m, v, d, n) == [i \in 1..(n + 1) |-> LET r == Rot(m.q, d) IN
                       <<v[1] + (i - 1) * m.s * r[1], v[2] + (i - 1) * m.s * r[2]>>]
FrameLaw == \A m \in Moves, v \in Starts :
  LET b == Back(m, v)
      r == <<To([m EXCEPT !.s = 1], <<b[1][1], b[2][1]>>)>> IN
  \* mapping back and forth is the identity (checked on the integer images)
  (b[1][2] = 1 /\ b[2][2] = 1) => To(m, <<b[1][1], b[2][1]>>) = v
Wrap == /\ Mode = "wrap" /\ c = <<>>
        /\ \E bb \in Args, sh \in Args, m \in Moves, v \in Starts :
           \E calls \in [1..Attempts -> [way : {"bb", "shape"}, args : Args]] :
             c' = <<[bb |-> bb, shape |-> sh, move |-> m, start |-> v,
                     calls |-> TLCEval([i \in 1..Attempts |->
                       LET e == Effective(IF calls[i].way = "bb" THEN bb ELSE sh, calls[i].args) IN
                       [way |-> calls[i].way, args |-> calls[i].args, effective |-> e,
                        shapes |-> Seen(m, v, <<1, 2>>, IF "iters" \in DOMAIN e THEN e["iters"] ELSE 3)]])]>>
        /\ UNCHANGED <<file, proc, log, start>>
\* overriding is for that call only and wins over what is stored
Precedence == (c # <<>>) => \A i \in 1..Len(c[1].calls) :
  LET k == c[1].calls[i]
      st == IF k.way = "bb" THEN c[1].bb ELSE c[1].shape IN
  /\ DOMAIN k.effective = DOMAIN st \cup DOMAIN k.args
  /\ \A a \in DOMAIN k.effective : k.effective[a] = (IF a \in DOMAIN k.args THEN k.args[a] ELSE st[a])

Init == /\ c = <<>> /\ proc = Idle /\ log = <<>>
        /\ start \in (IF Mode = "load" THEN StartFiles ELSE {"none"})
        /\ file = start
Next == \/ (Mode = "load" /\ (Begin \/ Connect \/ Receive \/ Install \/ Load))
        \/ Wrap
Spec == Init /\ [][Next]_vars

Emit == /\ (Len(log) = Attempts + 1) => CSVWrite("%1$s", <<ToJson([start |-> start, log |-> log])>>, IOEnv.OUT)
        /\ (c # <<>>) => CSVWrite("%1$s", <<ToJson(c[1])>>, IOEnv.OUT)
=============================================================================
