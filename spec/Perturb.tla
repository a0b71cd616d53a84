------------------------------ MODULE Perturb -------------------------------
(* Perturbed starting boxes and noisy alignments.                             *)
(*  "boxes"  a machine of one image: boxes are generated (possibly more than  *)
(*           once) around provided boxes or around the ground truth; the      *)
(*           perturbation is the caller's: the i-th call moves the box by the *)
(*           i-th displacement, wherever that leads                           *)
(*  "align"  aligning an integer shape with an integer box: the similarity    *)
(*           without rotation that matches centres and diagonals, and what    *)
(*           bounded noise may do to it                                       *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Mode, ImgSizes, GtBoxes, SrcBoxes, MaxN, MaxProvided, Steps, Shapes, Boxes, Noise

VARIABLES img, calls, made, gen, c
vars == <<img, calls, made, gen, c>>

\* a box is <<y0, x0, y1, x1>>
Clamp(x, hi) == IF x < 0 THEN 0 ELSE IF x > hi THEN hi ELSE x
Inside(b, s) == <<Clamp(b[1], s[1] - 1), Clamp(b[2], s[2] - 1), Clamp(b[3], s[1] - 1), Clamp(b[4], s[2] - 1)>>
Moved(b, k) == LET dy == ((k * 7) % 31) - 15
                   dx == ((k * 11) % 37) - 18
                   g == k % 3 IN <<b[1] + dy, b[2] + dx, b[3] + dy + g, b[4] + dx + g>>

\* the boxes of one generation: for every source its n perturbations, then -
\* if it was provided - itself; k counts the calls of the perturbation
RECURSIVE Made(_, _, _, _, _)
Made(src, n, prov, k, s) ==
  IF src = <<>> THEN <<>>
  ELSE [i \in 1..n |-> Inside(Moved(Head(src), k + i), s)]
       \o (IF prov THEN <<Inside(Head(src), s)>> ELSE <<>>)
       \o Made(Tail(src), n, prov, k + n, s)

Init == /\ calls = 0 /\ made = <<>> /\ gen = <<>> /\ c = <<>>
        /\ IF Mode = "boxes"
           THEN \E s \in ImgSizes, g \in GtBoxes, np \in 0..MaxProvided :
                \E p \in [1..np -> SrcBoxes] : img = [size |-> s, gt |-> g, prov |-> p]
           ELSE img = [size |-> <<1, 1>>, gt |-> <<0, 0, 0, 0>>, prov |-> <<>>]
Generate == /\ Mode = "boxes" /\ Len(gen) < Steps
            /\ \E n \in 1..MaxN, prov \in BOOLEAN :
                 /\ prov => Len(img.prov) > 0
                 /\ LET src == IF prov THEN img.prov ELSE <<img.gt>> IN
                    /\ made' = TLCEval(Made(src, n, prov, calls, img.size))
                    /\ calls' = calls + n * Len(src)
                    /\ gen' = Append(gen, [n |-> n, prov |-> prov, boxes |-> made'])
            /\ UNCHANGED <<img, c>>

Contained == \A i \in 1..Len(made) : LET b == made[i] IN
  /\ \A d \in 1..4 : b[d] >= 0
  /\ b[1] < img.size[1] /\ b[3] < img.size[1] /\ b[2] < img.size[2] /\ b[4] < img.size[2]
Counted == (gen # <<>>) => LET g == gen[Len(gen)] IN
  Len(made) = IF g.prov THEN Len(img.prov) * (g.n + 1) ELSE g.n

\* ---------------------------------------------------------------- align ---
BoxOf(s) == LET Lo(d) == CHOOSE v \in {s[i][d] : i \in 1..Len(s)} : \A i \in 1..Len(s) : v <= s[i][d]
                Hi(d) == CHOOSE v \in {s[i][d] : i \in 1..Len(s)} : \A i \in 1..Len(s) : v >= s[i][d]
            IN <<Lo(1), Lo(2), Hi(1), Hi(2)>>
Size2(b) == (b[3] - b[1]) * (b[3] - b[1]) + (b[4] - b[2]) * (b[4] - b[2])
Centre2(b) == <<b[1] + b[3], b[2] + b[4]>>     \* twice the centre
Align == /\ Mode = "align" /\ c = <<>>
         /\ \E s \in Shapes, b \in Boxes, n \in Noise :
              c' = [shape |-> s, box |-> b, noise |-> n,
                    \* the squared scale of the alignment of the two boxes
                    scale2 |-> R(Size2(b), Size2(BoxOf(s))),
                    from2 |-> Centre2(BoxOf(s)), to2 |-> Centre2(b),
                    \* what noise may add: scale factor, degrees, pixels
                    lo |-> Sub(One, Mul(R(1, 2), n[1])), hi |-> Add(One, Mul(R(1, 2), n[1])),
                    deg |-> Mul(I(180), n[2]),
                    move |-> <<Mul(n[3], I(b[3] - b[1])), Mul(n[3], I(b[4] - b[2]))>>]
         /\ UNCHANGED <<img, calls, made, gen>>
NoiseSane == (c # <<>>) =>
  /\ Lt(Zero, c.lo) /\ Le(c.lo, c.hi) /\ ~Lt(c.deg, Zero)
  /\ (c.noise = <<Zero, Zero, Zero>>) => (c.lo = One /\ c.hi = One /\ c.move = <<Zero, Zero>>)

Next == Generate \/ Align
Spec == Init /\ [][Next]_vars
Emit == (IF Mode = "boxes" THEN Len(gen) = Steps ELSE c # <<>>) =>
  CSVWrite("%1$s", <<ToJson(IF Mode = "boxes" THEN [img |-> img, gen |-> gen] ELSE c)>>, IOEnv.OUT)
=============================================================================
