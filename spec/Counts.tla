------------------------------- MODULE Counts -------------------------------
(* Component counts and sampling masks per scale.                             *)
(*  "comps"  fitters are built one after the other on the same models; every  *)
(*           request is applied to the scales it names, or rejected without   *)
(*           any model changing                                               *)
(*  "mask"   sampling of a holistic template (pixels, channels) and of a      *)
(*           patch template (parts, offsets, channels, pixels): the sampled   *)
(*           entries of the vectorised template, and the steepest descent     *)
(*           images restricted to them; and the pixels of a reference frame   *)
(*           that are kept when every so many of its pixels is taken          *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Mode, Shape, App, Requests, Steps, Holistic, Patch, Params,
          Frames         \* reference frames: h rows of w pixels, without some in the corners and the middle

VARIABLES shape, app, log, c
vars == <<shape, app, log, c>>

\* ------------------------------------------------------------- components --
\* a model is its cumulative shares of variance in millionths (what was
\* trimmed at training counts as lost)
N(sp) == Len(sp)
Valid(sp, it) == CASE it.kind = "none" -> TRUE
                   [] it.kind = "int" -> it.v >= 1
                   [] it.kind = "frac" -> it.v > 0 /\ it.v <= sp[N(sp)]
                   [] OTHER -> FALSE
Count(sp, it, now) == CASE it.kind = "none" -> now
                        [] it.kind = "int" -> Min2(it.v, N(sp))
                        [] it.kind = "frac" -> 1 + Cardinality({j \in 1..N(sp) : sp[j] < it.v})
\* <<>> : rejected
Normal(models, rq) == LET n == Len(models) IN
  CASE rq.form = "atom" -> [i \in 1..n |-> rq.items[1]]
    [] Len(rq.items) = 1 -> [i \in 1..n |-> rq.items[1]]
    [] Len(rq.items) = n -> rq.items
    [] OTHER -> <<>>
Accepted(models, rq) == LET q == Normal(models, rq) IN
  models = <<>> \/ (q # <<>> /\ \A i \in 1..Len(models) : Valid(models[i], q[i]))
Applied(models, rq, now) == LET q == Normal(models, rq) IN
  TLCEval([i \in 1..Len(models) |-> Count(models[i], q[i], now[i])])

Build == /\ Mode = "comps" /\ Len(log) < Steps
         /\ \E rs \in Requests, ra \in (IF App = <<>> THEN {[form |-> "atom", items |-> <<[kind |-> "none", v |-> 0]>>]} ELSE Requests) :
              LET ok == Accepted(Shape, rs) /\ Accepted(App, ra) IN
              /\ shape' = (IF ok THEN Applied(Shape, rs, shape) ELSE shape)
              /\ app' = (IF ok THEN Applied(App, ra, app) ELSE app)
              /\ log' = Append(log, [shape |-> rs, app |-> ra, ok |-> ok, nshape |-> shape', napp |-> app'])
         /\ UNCHANGED c
InRange == /\ \A i \in 1..Len(shape) : shape[i] \in 1..N(Shape[i])
           /\ \A i \in 1..Len(app) : app[i] \in 1..N(App[i])
\* a share of variance is kept with as few components as possible
Smallest == \A k \in 1..Len(log) : log[k].ok => LET q == Normal(Shape, log[k].shape) IN
  \A i \in 1..Len(Shape) : (q[i].kind = "frac") =>
     /\ Shape[i][log[k].nshape[i]] >= q[i].v
     /\ (log[k].nshape[i] > 1) => Shape[i][log[k].nshape[i] - 1] < q[i].v
Untouched == \A k \in 1..Len(log) : ~log[k].ok =>
  /\ log[k].nshape = (IF k = 1 THEN [i \in 1..Len(Shape) |-> N(Shape[i])] ELSE log[k - 1].nshape)
  /\ log[k].napp = (IF k = 1 THEN [i \in 1..Len(App) |-> N(App[i])] ELSE log[k - 1].napp)

\* ------------------------------------------------------------------ masks --
\* toy numbers standing for gradients and warp Jacobians
Grad(d, ch, px) == ((d * 5 + ch * 3 + px * 7) % 11) - 4
Jac(d, px, k) == ((d * 7 + px * 2 + k * 3) % 9) - 3
Sel(n, s) == CASE s.kind = "none" -> [i \in 1..n |-> i - 1]
               [] s.kind = "step" -> [i \in 1..((n + s.v - 1) \div s.v) |-> (i - 1) * s.v]
               [] s.kind = "every" -> SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : (i * i + s.v) % 3 # 1)
HolMask(h, s) == FlattenSeq_([ch \in 1..h.ch |-> LET q == Sel(h.n, s) IN
                    [i \in 1..Len(q) |-> (ch - 1) * h.n + q[i]]])
HolSd(h, s) == FlattenSeq_([ch \in 1..h.ch |-> LET q == Sel(h.n, s) IN
                    [i \in 1..Len(q) |-> [k \in 1..Params |->
                       Grad(0, ch - 1, q[i]) * Jac(0, q[i], k - 1) + Grad(1, ch - 1, q[i]) * Jac(1, q[i], k - 1)]]])
\* patch templates: part, then offset, then channel, then pixel; all the pixels
\* of a part move with its landmark
PatMask(p, s) == LET q == Sel(p.n, s) IN
  FlattenSeq_([b \in 1..(p.parts * p.off * p.ch) |-> [i \in 1..Len(q) |-> (b - 1) * p.n + q[i]]])
PatSd(p, s) == LET q == Sel(p.n, s) IN
  FlattenSeq_([b \in 1..(p.parts * p.off * p.ch) |->
    LET part == (b - 1) \div (p.off * p.ch)
        oc == (b - 1) % (p.off * p.ch) IN
    [i \in 1..Len(q) |-> [k \in 1..Params |->
       Grad(0, part + 2 * oc, q[i]) * Jac(0, part, k - 1) + Grad(1, part + 2 * oc, q[i]) * Jac(1, part, k - 1)]]])
Samplings == {[kind |-> "none", v |-> 0]} \cup [kind : {"step"}, v : 1..5] \cup [kind : {"every"}, v : 0..2]
Mask == /\ Mode = "mask" /\ c = <<>>
        /\ \E s \in Samplings :
             \/ \E h \in Holistic : c' = <<[world |-> "holistic", dims |-> h, s |-> s, sel |-> Sel(h.n, s),
                                           mask |-> TLCEval(HolMask(h, s)), sd |-> TLCEval(HolSd(h, s))]>>
             \/ \E p \in Patch : c' = <<[world |-> "patch", dims |-> p, s |-> s, sel |-> Sel(p.n, s),
                                         mask |-> TLCEval(PatMask(p, s)), sd |-> TLCEval(PatSd(p, s))]>>
        /\ UNCHANGED <<shape, app, log>>
\* one row per sampled entry, in ascending order; every step starts at the
\* first pixel; sampling everything is no sampling
\* the pixels of a frame, row after row
InFrame(f, r, k) == /\ r + k >= f.cut /\ (f.h - 1 - r) + (f.w - 1 - k) >= f.cut
                    /\ ~(f.hole /\ r = f.h \div 2 /\ k = f.w \div 2)
Cells(f) == SelectSeq([i \in 1..(f.h * f.w) |-> <<(i - 1) \div f.w, (i - 1) % f.w>>], LAMBDA p : InFrame(f, p[1], p[2]))
Thin == /\ Mode = "mask" /\ c = <<>>
        /\ \E f \in Frames, st \in 1..9 :
             LET q == TLCEval(Cells(f))
                 s == TLCEval(Sel(Len(q), [kind |-> "step", v |-> st])) IN
             c' = <<[world |-> "frame", dims |-> f, step |-> st, cells |-> q, kept |-> s,
                     picked |-> [i \in 1..Len(s) |-> q[s[i] + 1]]]>>
        /\ UNCHANGED <<shape, app, log>>
\* as few as the step says, each as far from the one before
Spaced == (c # <<>> /\ c[1].world = "frame") => LET x == c[1] IN
  /\ Len(x.kept) * x.step >= Len(x.cells) /\ (Len(x.kept) - 1) * x.step < Len(x.cells)
  /\ \A i \in 1..(Len(x.kept) - 1) : x.kept[i + 1] - x.kept[i] = x.step
Rows == (c # <<>> /\ c[1].world # "frame") => LET x == c[1] IN
  /\ Len(x.mask) = Len(x.sd)
  /\ \A i \in 1..(Len(x.mask) - 1) : x.mask[i] < x.mask[i + 1]
  /\ (x.s.kind = "step") => x.mask[1] = 0
  /\ (x.s.kind = "none" \/ x.s = [kind |-> "step", v |-> 1]) => \A i \in 1..Len(x.mask) : x.mask[i] = i - 1

Init == /\ log = <<>> /\ c = <<>>
        /\ shape = [i \in 1..Len(Shape) |-> N(Shape[i])]
        /\ app = [i \in 1..Len(App) |-> N(App[i])]
Next == Build \/ Mask \/ Thin
Spec == Init /\ [][Next]_vars
Emit == /\ (Mode = "comps" /\ Len(log) = Steps) => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.OUT)
        /\ (c # <<>>) => CSVWrite("%1$s", <<ToJson(c[1])>>, IOEnv.OUT)
=============================================================================
