------------------------------- MODULE Smooth -------------------------------
(* Smoothing of the training images.  Away from the border, a kernel of unit  *)
(* mass that is the same upwards, downwards, left and right leaves planes     *)
(* alone and raises a y^2 + b x^2 by (a + b) times its variance.  Every       *)
(* channel is smoothed on its own.  Images are shrunk or grown to the         *)
(* reference first; the variance is in pixels of the reference.               *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Surfaces,     \* [k, y, x, yy, xx, yx] coefficients of a channel
          Channels, Sigmas, Grows

VARIABLES im, grow, sigma, step
vars == <<im, grow, sigma, step>>

Init == /\ im \in UNION {[1..c -> {[q \in DOMAIN f |-> I(f[q])] : f \in Surfaces}] : c \in Channels}
        /\ grow \in Grows /\ sigma \in Sigmas /\ step = "given"
\* as seen by pixel coordinates that have grown
Resize == /\ step = "given" /\ step' = "sized"
          /\ im' = TLCEval([c \in DOMAIN im |-> LET f == im[c] g == grow g2 == Mul(grow, grow) IN
                    [k |-> f.k, y |-> Div(f.y, g), x |-> Div(f.x, g), yy |-> Div(f.yy, g2), xx |-> Div(f.xx, g2), yx |-> Div(f.yx, g2)]])
          /\ UNCHANGED <<grow, sigma>>
Smooth == /\ step = "sized" /\ step' = "smooth"
          /\ im' = TLCEval([c \in DOMAIN im |-> [im[c] EXCEPT !.k = Add(@, Mul(I(sigma * sigma), Add(im[c].yy, im[c].xx)))]])
          /\ UNCHANGED <<grow, sigma>>
Next == Resize \/ Smooth
Spec == Init /\ [][Next]_vars
\* flat and slanted channels stay what they are, whatever the others show
Planes == [][step = "sized" => \A c \in DOMAIN im : Add(im[c].yy, im[c].xx) = Zero => im'[c] = im[c]]_vars
Done == step = "smooth"
Emit == Done => CSVWrite("%1$s", <<ToJson([im |-> im, grow |-> grow, sigma |-> sigma])>>, IOEnv.OUT)
=============================================================================
