------------------------------ MODULE Pipeline -------------------------------
(* The building blocks of training.  Every image shows its own coordinates,   *)
(* so that whatever is done to it, what it shows at a landmark must be where  *)
(* that landmark was in the image as given.                                   *)
(*  "chain"  steps that resize the images: to the reference shape, by         *)
(*           features that resize, by scales                                  *)
(*  "frame"  reference frames (holistic, patches) and what every image must   *)
(*           show at every pixel of them                                      *)
(*  "ref"    reference shapes of sets of shapes                               *)
(*  "patch"  patches around landmarks                                         *)
(*  "align"  aligned shapes                                                   *)
EXTENDS Tri, Json, IOUtils, CSV, TLC

CONSTANTS Mode, Images,    \* sequence of sequences of integer landmarks
          Refs,            \* sequence of integer reference shapes
          Tris, Scales,    \* scales <<num, den>>
          Bounds, Sizes, Diagonals, MaxSteps, Turns

VARIABLES sq,   \* squared size of every image relative to the one given
          log, c
vars == <<sq, log, c>>
N == Len(Images)

\* squared size of a shape: sum of squared distances to its centre
Centre(s) == <<R(ISumSeq([p \in 1..Len(s) |-> s[p][1]]), Len(s)), R(ISumSeq([p \in 1..Len(s) |-> s[p][2]]), Len(s))>>
Size2(s) == LET m == Centre(s) IN
  SumSeq([p \in 1..Len(s) |-> Add(Mul(Sub(I(s[p][1]), m[1]), Sub(I(s[p][1]), m[1])),
                                  Mul(Sub(I(s[p][2]), m[2]), Sub(I(s[p][2]), m[2])))])
Step(s, f(_)) == /\ Mode = "chain" /\ Len(log) < MaxSteps
                 /\ sq' = TLCEval([k \in 1..N |-> f(k)])
                 /\ log' = Append(log, [step |-> s, sq |-> sq'])
                 /\ UNCHANGED c
\* whatever was done before, the images now have the size of the reference
Rescale == \E r \in 1..Len(Refs) :
  LET f(k) == Div(Size2(Refs[r]), Size2(Images[k])) IN Step([kind |-> "rescale", r |-> r, v |-> One], f)
Feature == \E h \in {1, 2} : LET f(k) == Div(sq[k], I(h * h)) IN Step([kind |-> "feature", r |-> 0, v |-> I(h)], f)
Scale == \E s \in Scales : LET f(k) == Mul(sq[k], Mul(s, s)) IN Step([kind |-> "scale", r |-> 0, v |-> s], f)
\* after a rescale all the shapes have the same size
SameSize == (log # <<>> /\ log[Len(log)].step.kind = "rescale") =>
   \A k \in 1..N : Mul(sq[k], Size2(Images[k])) = Size2(Refs[log[Len(log)].step.r])

\* ------------------------------------------------------------------ frames --
Hits(s, q) == {k \in 1..Len(Tris) : In(s, Tris[k], q)}
Show(s, t, q) == TLCEval([k \in 1..N |-> FromTri(s, Images[k], t, q)])
Holistic(s) == {[q |-> q, sure |-> \E k \in Hits(s, q) : Within(s, Tris[k], q),
                 show |-> Show(s, Tris[CHOOSE k \in Hits(s, q) : TRUE], q)] :
                   q \in {q \in Box(s, 0) : Hits(s, q) # {}}}
Patched(s, z) == UNION {PatchAt(s[p], z) : p \in 1..Len(s)}
Biggest(z) == Max2(z[1], z[2])
Frame == /\ Mode = "frame" /\ c = <<>>
         /\ \E r \in 1..Len(Refs), b \in Bounds :
              \/ c' = <<[kind |-> "holistic", r |-> r, b |-> b, margin |-> b, pixels |-> TLCEval(Holistic(Refs[r])),
                         range |-> <<Hi(Refs[r], 1) - Lo(Refs[r], 1), Hi(Refs[r], 2) - Lo(Refs[r], 2)>>]>>
              \/ \E z \in Sizes :
                 c' = <<[kind |-> "patches", r |-> r, b |-> b, margin |-> b + Biggest(z), z |-> z,
                         pixels |-> {[q |-> q] : q \in Patched(Refs[r], z)},
                         range |-> <<Hi(Refs[r], 1) - Lo(Refs[r], 1), Hi(Refs[r], 2) - Lo(Refs[r], 2)>>]>>
         /\ UNCHANGED <<sq, log>>
\* at the landmarks of the frame every image shows its own landmarks
Landmarks == (c # <<>> /\ Mode = "frame" /\ c[1].kind = "holistic") => LET x == c[1] IN
  \A p \in 1..Len(Refs[x.r]) : \E y \in x.pixels : y.q = Refs[x.r][p] /\
      \A k \in 1..N : y.show[k] = <<I(Images[k][p][1]), I(Images[k][p][2])>>

\* --------------------------------------------------------- reference shapes --
Mean(S) == TLCEval([p \in 1..Len(Images[1]) |-> [d \in 1..2 |->
   Div(SumSeq([i \in 1..Len(S) |-> I(Images[S[i]][p][d])]), I(Len(S)))]])
Ext(m, d) == LET lo == CHOOSE p \in 1..Len(m) : \A o \in 1..Len(m) : Le(m[p][d], m[o][d])
                 hi == CHOOSE p \in 1..Len(m) : \A o \in 1..Len(m) : Le(m[o][d], m[p][d]) IN Sub(m[hi][d], m[lo][d])
Diag2(m) == LET a == Ext(m, 1)
                b == Ext(m, 2) IN Add(Mul(a, a), Mul(b, b))
Sets == {<<1>>, <<2, 1>>, [i \in 1..N |-> i], <<1, 1, 2>>}
Ref == /\ Mode = "ref" /\ c = <<>>
       /\ \E S \in Sets, D \in Diagonals :      \* 0: none requested
            LET m == Mean(S) IN
            c' = <<[set |-> S, diagonal |-> D, mean |-> m,
                    grow2 |-> IF D = 0 THEN One ELSE Div(I(D * D), Diag2(m))]>>
       /\ UNCHANGED <<sq, log>>
\* the diagonal is the requested one
Diagonal == (c # <<>> /\ Mode = "ref" /\ c[1].diagonal # 0) =>
   Mul(c[1].grow2, Diag2(c[1].mean)) = I(c[1].diagonal * c[1].diagonal)

\* ----------------------------------------------------------------- patches --
\* quarter pixels: never half way between two pixels
Patch == /\ Mode = "patch" /\ c = <<>>
         /\ \E z \in Sizes, fy, fx \in {0, 1, 3} : LET at(v, f) == <<4 * v + f, 4>> IN
              c' = <<[z |-> z, f |-> <<fy, fx>>, images |-> TLCEval([k \in 1..N |-> [p \in 1..Len(Images[k]) |->
                 [at |-> <<at(Images[k][p][1], fy), at(Images[k][p][2], fx)>>,
                  corner |-> <<(4 * Images[k][p][1] + fy + 2) \div 4 - z[1] \div 2,
                               (4 * Images[k][p][2] + fx + 2) \div 4 - z[2] \div 2>>]]])]>>
         /\ UNCHANGED <<sq, log>>
\* the centre of a patch is within half a pixel of its landmark
Centred == (c # <<>> /\ Mode = "patch") => \A k \in 1..N, p \in 1..Len(Images[1]), d \in 1..2 :
   LET x == c[1].images[k][p] IN Abs(4 * (x.corner[d] + c[1].z[d] \div 2) - x.at[d][1]) < 2

\* --------------------------------------------------------------- alignment --
\* copies of one shape, turned by Pythagorean angles <<cos, sin, den>>, grown
\* and moved: they align exactly
Turn(s, t, g, m) == TLCEval([p \in 1..Len(s) |-> <<g * (t[1] * s[p][1] - t[2] * s[p][2]) + m[1],
                                                   g * (t[2] * s[p][1] + t[1] * s[p][2]) + m[2]>>])
Align == /\ Mode = "align" /\ c = <<>>
         /\ \E k \in 1..N, ts \in Turns :
              c' = <<[base |-> Images[k], copies |-> TLCEval([i \in 1..Len(ts) |->
                       Turn(Images[k], ts[i].t, ts[i].g, ts[i].m)])]>>
         /\ UNCHANGED <<sq, log>>
SameShape == (c # <<>> /\ Mode = "align") => \A i \in 1..Len(c[1].copies) :
   LET a == c[1].copies[i]
       b == c[1].base IN
   \* all distances in one proportion
   \A p, q, u, v \in 1..Len(b) :
      LET d(s, x, y) == (s[x][1] - s[y][1]) * (s[x][1] - s[y][1]) + (s[x][2] - s[y][2]) * (s[x][2] - s[y][2]) IN
      (p = 1 /\ q = 2 /\ u # v) => R(d(a, p, q), d(b, p, q)) = R(d(a, u, v), d(b, u, v))

Init == /\ sq = [k \in 1..N |-> One] /\ log = <<>> /\ c = <<>>
Next == Rescale \/ Feature \/ Scale \/ Frame \/ Ref \/ Patch \/ Align
Spec == Init /\ [][Next]_vars
Emit == /\ (Mode = "chain" /\ Len(log) = MaxSteps) => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.OUT)
        /\ (c # <<>>) => CSVWrite("%1$s", <<ToJson(c[1])>>, IOEnv.OUT)
=============================================================================
