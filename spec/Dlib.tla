-------------------------------- MODULE Dlib ---------------------------------
(* The bridge to dlib.                                                        *)
(* "convert"  a shape (coordinates in quarters of pixels) is represented by   *)
(*            dlib in whole pixels: every coordinate by one less than a pixel *)
(*            away, whole coordinates by themselves; a box by the rectangle   *)
(*            of its bounds.  Going to dlib and back twice is going once.     *)
(* "cascade"  boxes carried through the scales by predictors that move what   *)
(*            they are given: training (all starts of all images) or fitting  *)
(*            (one box).  Positions are in the frame of the given image.      *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Mode, Quarters, NPoints, Rounding,
          Images,        \* <<<<y, x, m>>, ..>> corner and size m of the 40 x 50 truth
          Reference,     \* m of the reference shape
          ScaleLists, Perturbations, FitBoxes,
          BoxCounts      \* how many boxes come with each of the images (0: none do)

VARIABLES shape, back, again, conf, stage, boxes, trail
vars == <<shape, back, again, conf, stage, boxes, trail>>

\* ---------------------------------------------------------------- convert --
Whole(q) == q % 4 = 0
Trunc(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
Near(q) == (q + 2) \div 4
\* any rounding is as good as another: "allowed" holds what dlib may be given
Allowed(q) == {k \in (q \div 4) .. (q \div 4 + 1) : IF Whole(q) THEN 4 * k = q ELSE Abs(4 * k - q) < 4}
Rnd(q) == CASE Rounding = "trunc" -> Trunc(q) [] Rounding = "floor" -> q \div 4 [] OTHER -> Near(q)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Bounds(s) == [d \in 1..2 |-> <<Least({s[k][d] : k \in DOMAIN s}), Most({s[k][d] : k \in DOMAIN s})>>]
AllowedShape(s) == [k \in 1..Len(s) |-> [d \in 1..2 |-> Allowed(s[k][d])]]
Choose == /\ Mode = "convert" /\ shape = <<>>
          /\ shape' \in [1..NPoints -> Quarters \X Quarters]
          /\ UNCHANGED <<back, again, conf, stage, boxes, trail>>
Convert == /\ Mode = "convert" /\ shape # <<>> /\ back = <<>>
           /\ back' = [k \in 1..NPoints |-> [d \in 1..2 |-> 4 * Rnd(shape[k][d])]]
           /\ UNCHANGED <<shape, again, conf, stage, boxes, trail>>
Reconvert == /\ Mode = "convert" /\ back # <<>> /\ again = <<>>
             /\ again' = [k \in 1..NPoints |-> [d \in 1..2 |-> 4 * Rnd(back[k][d])]]
             /\ UNCHANGED <<shape, back, conf, stage, boxes, trail>>
WithinRounding == \A k \in DOMAIN back : \A d \in 1..2 :
    /\ Abs(back[k][d] - shape[k][d]) < 4
    /\ back[k][d] \div 4 \in Allowed(shape[k][d])
    /\ Whole(shape[k][d]) => back[k][d] = shape[k][d]
Idempotent == again # <<>> => again = back
BoundsCommute == back # <<>> => \A d \in 1..2 : \A e \in 1..2 : Abs(Bounds(back)[d][e] - Bounds(shape)[d][e]) < 4

\* ---------------------------------------------------------------- cascade --
Height(m) == 40 * m
Width(m) == 50 * m
Labels(b, p) == IF b = 0 THEN [k \in 1..p |-> <<1, k>>]
                ELSE [k \in 1..(b * (p + 1)) |-> <<(k - 1) \div (p + 1) + 1, IF k % (p + 1) = 0 THEN 0 ELSE k % (p + 1)>>]
\* the b-th box of an image is its truth's, shifted; a perturbation shifts a
\* box by a tenth of its height and its width more than the one before
Shift(b, given) == IF given = 0 THEN <<0, 0>> ELSE <<4 * b, 3 - 6 * b>>
StartBox(im, lab, given) ==
   LET s == Shift(lab[1], given) IN
   <<Add(I(im[1] + s[1]), R(Height(im[3]) * lab[2], 10)), Add(I(im[2] + s[2]), R(Width(im[3]) * lab[2], 10)),
     Add(I(im[1] + s[1] + Height(im[3])), R(Height(im[3]) * lab[2], 10)), Add(I(im[2] + s[2] + Width(im[3])), R(Width(im[3]) * lab[2], 10))>>
\* the predictor of the j-th scale moves what it sees by so many pixels of its scale
Move(j) == CASE j = 1 -> <<12, -7>> [] j = 2 -> <<-9, 11>> [] OTHER -> <<6, 13>>
Factor(m, j) == Mul(R(Reference, m), R(conf.scales[j][1], conf.scales[j][2]))
MovedBox(b, m, j) == [d \in 1..4 |-> Add(b[d], Div(I(Move(j)[IF d % 2 = 1 THEN 1 ELSE 2]), Factor(m, j)))]
Setup == /\ Mode = "cascade" /\ conf = <<>>
         /\ \/ \E S \in ScaleLists, p \in Perturbations, b \in BoxCounts :
                 /\ conf' = [kind |-> "train", scales |-> S, perturbations |-> p, boxes |-> b]
                 /\ boxes' = [i \in 1..Len(Images) |-> [k \in 1..Len(Labels(b[i], p)) |-> StartBox(Images[i], Labels(b[i], p)[k], b[i])]]
            \/ \E S \in ScaleLists, f \in FitBoxes :
                 /\ conf' = [kind |-> "fit", scales |-> S, perturbations |-> 0, boxes |-> <<1>>, size |-> f[3]]
                 /\ boxes' = <<<<StartBox(f, <<1, 0>>, 0)>>>>
         /\ UNCHANGED <<shape, back, again, stage, trail>>
Size(i) == IF conf.kind = "fit" THEN conf.size ELSE Images[i][3]
Descend == /\ Mode = "cascade" /\ conf # <<>> /\ stage < Len(conf.scales)
           /\ LET nb == TLCEval([i \in DOMAIN boxes |-> [k \in DOMAIN boxes[i] |-> MovedBox(boxes[i][k], Size(i), stage + 1)]]) IN
              /\ boxes' = nb
              /\ trail' = Append(trail, [scale |-> stage + 1, given |-> boxes, moved |-> nb,
                                         factor |-> [i \in DOMAIN boxes |-> Factor(Size(i), stage + 1)]])
           /\ stage' = stage + 1
           /\ UNCHANGED <<shape, back, again, conf>>
\* boxes keep their size: nothing but the predictors moves them
SizeKept == \A i \in DOMAIN boxes : \A k \in DOMAIN boxes[i] :
   /\ Sub(boxes[i][k][3], boxes[i][k][1]) = I(Height(Size(i)))
   /\ Sub(boxes[i][k][4], boxes[i][k][2]) = I(Width(Size(i)))
Everybody == \A n \in DOMAIN trail : \A i \in DOMAIN trail[n].given :
   Len(trail[n].given[i]) = IF conf.kind = "fit" THEN 1 ELSE Len(Labels(conf.boxes[i], conf.perturbations))

Init == shape = <<>> /\ back = <<>> /\ again = <<>> /\ conf = <<>> /\ stage = 0 /\ boxes = <<>> /\ trail = <<>>
Next == Choose \/ Convert \/ Reconvert \/ Setup \/ Descend
Spec == Init /\ [][Next]_vars
Emit == /\ (Mode = "convert" /\ shape # <<>> /\ back = <<>>) =>
             CSVWrite("%1$s", <<ToJson([shape |-> shape, allowed |-> AllowedShape(shape), bounds |-> Bounds(shape),
                                        rect |-> [d \in 1..2 |-> [e \in 1..2 |-> Allowed(Bounds(shape)[d][e])]]])>>, IOEnv.OUT)
        /\ (Mode = "cascade" /\ conf # <<>> /\ stage = Len(conf.scales)) =>
             CSVWrite("%1$s", <<ToJson([conf |-> conf, trail |-> trail])>>, IOEnv.OUT)
=============================================================================
