------------------------------- MODULE Filter -------------------------------
(* Landmark experts: frequency-domain convolution, padding, correlation       *)
(* filters trained at once or in increments, and probability maps.            *)
(*  "conv"   convolution of integer images with integer filters, stated in    *)
(*           the pixel domain for every mode and boundary                     *)
(*  "pad"    where padding and cropping put each pixel                        *)
(*  "filter" a machine that trains and increments a correlation filter; the   *)
(*           filter is the solution of the normal equations of the            *)
(*           regularised least-squares problem, again in the pixel domain     *)
(*  "prob"   probability maps of integer responses                            *)
(*  "peak"   patch/context geometries of an expert looking for a dot          *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Mode, MaxX, MaxF, NSeeds, Geoms, Chans, Forget, MaxBatches, Lambda, Bounds

VARIABLES c, M, v, W, hist, phase
vars == <<c, M, v, W, hist, phase>>

\* a small reproducible integer texture
Tex(s, i, j, k) == ((s * 7 + i * 5 + j * 3 + k * 11 + (i + s) * (j + 2 * k + 1)) % 5) - 2

\* ---------------------------------------------------------------- conv ----
Img(s, h, w, nk) == [k \in 1..nk |-> [i \in 1..h |-> [j \in 1..w |-> Tex(s, i, j, k)]]]
H(m) == Len(m)
Wd(m) == Len(m[1])
\* pixel (i, j), counted from 0, of an image continued beyond its border
Refl(i, n) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
At(m, i, j, b) == IF b = "constant"
                  THEN IF i < 0 \/ j < 0 \/ i >= H(m) \/ j >= Wd(m) THEN 0 ELSE m[i + 1][j + 1]
                  ELSE m[Refl(i, H(m)) + 1][Refl(j, Wd(m)) + 1]
Conv(m, f, i, j, b) ==      \* the full convolution at (i, j)
  ISumSeq([q \in 1..(H(f) * Wd(f)) |->
     LET a == (q - 1) \div Wd(f)
         d == (q - 1) % Wd(f) IN f[a + 1][d + 1] * At(m, i - a, j - d, b)])
Block(m, f, i0, j0, h, w, b) ==
  TLCEval([i \in 1..h |-> [j \in 1..w |-> Conv(m, f, i0 + i - 1, j0 + j - 1, b)]])
Full(m, f) == Block(m, f, 0, 0, H(m) + H(f) - 1, Wd(m) + Wd(f) - 1, "constant")
\* the centre of a filter of size n is its element n \div 2
Same(m, f, b) == Block(m, f, H(f) \div 2, Wd(f) \div 2, H(m), Wd(m), b)
Valid(m, f) == IF H(f) > H(m) \/ Wd(f) > Wd(m) THEN <<>>
               ELSE Block(m, f, H(f) - 1, Wd(f) - 1, H(m) - H(f) + 1, Wd(m) - Wd(f) + 1, "constant")
Total(m) == ISumSeq([i \in 1..Len(m) |-> ISumSeq(m[i])])

InitConv == \E xh, xw \in 1..MaxX, fh, fw \in 1..MaxF, s \in 1..NSeeds, nk \in Chans :
   c = [x |-> TLCEval(Img(s, xh, xw, nk)), f |-> TLCEval(Img(s + 3, fh, fw, nk))]
CommuteConv == (Mode = "conv") => \A k \in 1..Len(c.x) :
   /\ Full(c.x[k], c.f[k]) = Full(c.f[k], c.x[k])
   /\ Total(Full(c.x[k], c.f[k])) = Total(c.x[k]) * Total(c.f[k])
ConvOut == [x |-> c.x, f |-> c.f,
            full |-> [k \in 1..Len(c.x) |-> Full(c.x[k], c.f[k])],
            same |-> [k \in 1..Len(c.x) |-> Same(c.x[k], c.f[k], "constant")],
            symm |-> [k \in 1..Len(c.x) |-> Same(c.x[k], c.f[k], "symmetric")],
            valid |-> [k \in 1..Len(c.x) |-> Valid(c.x[k], c.f[k])]]

\* ----------------------------------------------------------------- pad ----
Lead(n, e) == (e \div 2) - (n \div 2)
InitPad == \E nh, nw \in 1..MaxX, eh, ew \in 1..MaxF :
   /\ nh <= eh /\ nw <= ew /\ c = [n |-> <<nh, nw>>, e |-> <<eh, ew>>]
PadFits == (Mode = "pad") => \A d \in 1..2 :
   /\ Lead(c.n[d], c.e[d]) >= 0 /\ Lead(c.n[d], c.e[d]) + c.n[d] <= c.e[d]
   /\ Lead(c.n[d], c.e[d]) + (c.n[d] \div 2) = c.e[d] \div 2
PadOut == [n |-> c.n, e |-> c.e, lead |-> <<Lead(c.n[1], c.e[1]), Lead(c.n[2], c.e[2])>>]

\* -------------------------------------------------------------- filter ----
(* c = [hx, wx, hy, wy, nk, multi, s, b, y]; an extended grid of eh x ew pixels  *)
(* on which convolution is circular.  Unknown number (k-1)*N + r + 1 is the    *)
(* value of channel k's filter at displacement r = (a, b).                    *)
Eh == c.hx + c.hy - 1
Ew == c.wx + c.wy - 1
N == Eh * Ew
Ext(m, h, w, r) ==          \* pixel r (0-based) of m centred on the grid
  LET i == (r \div Ew) - Lead(h, Eh)
      j == (r % Ew) - Lead(w, Ew) IN
  IF i < 0 \/ j < 0 \/ i >= h \/ j >= w THEN 0 ELSE m[i + 1][j + 1]
\* images may be continued beyond their border by reflection
ExtX(m, r) == At(m, (r \div Ew) - Lead(c.hx, Eh), (r % Ew) - Lead(c.wx, Ew), c.b)
Minus(r, q) == (((r \div Ew) + Eh - (q \div Ew)) % Eh) * Ew + (((r % Ew) + Ew - (q % Ew)) % Ew)
Row(x, r) ==  \* coefficients of the unknowns in output pixel r
  TLCEval([u \in 1..(c.nk * N) |->
     ExtX(x[((u - 1) \div N) + 1], Minus(r, (u - 1) % N))])
Yv(r) == Ext(c.y, c.hy, c.wy, r)
Rows(x) == TLCEval([r \in 1..N |-> Row(x, r - 1)])
NormalM(x) == LET A == Rows(x) IN
  TLCEval([p \in 1..(c.nk * N) |-> [q \in 1..(c.nk * N) |->
     IF c.multi \/ (p - 1) \div N = (q - 1) \div N
     THEN ISumSeq([r \in 1..N |-> A[r][p] * A[r][q]]) ELSE 0]])
NormalV(x) == LET A == Rows(x) IN
  TLCEval([p \in 1..(c.nk * N) |-> ISumSeq([r \in 1..N |-> A[r][p] * Yv(r - 1)])])
Patch(i) == Img(c.s + 2 * i, c.hx, c.wx, c.nk)

InitFilter == \E g \in Geoms, nk \in Chans, multi \in BOOLEAN, s \in 1..NSeeds, b \in Bounds :
  c = [b |-> b, hx |-> g[1], wx |-> g[2], hy |-> g[3], wy |-> g[4], nk |-> nk, multi |-> multi, s |-> s,
       y |-> TLCEval([i \in 1..g[3] |-> [j \in 1..g[4] |-> 1 + ((i * j + s) % 2)]])]
SumUp(F(_), a, b) == LET RECURSIVE go(_)
                         go(i) == IF i = b THEN F(i) ELSE MAdd(F(i), go(i + 1)) IN TLCEval(go(a))
\* deliver n more images, the earlier ones weighted down by f
Deliver(n, f) ==
  LET k == Len(W)
      NM == SumUp(LAMBDA i : RM(NormalM(Patch(i))), k + 1, k + n)
      NV == SumUp(LAMBDA i : <<RV(NormalV(Patch(i)))>>, k + 1, k + n)[1]
  IN /\ M' = (IF k = 0 THEN NM ELSE TLCEval(MAdd(MScale(f, M), NM)))
     /\ v' = (IF k = 0 THEN NV ELSE TLCEval(VAdd(VScale(f, v), NV)))
     /\ W' = TLCEval(VScale(f, W) \o [i \in 1..n |-> One])
     /\ hist' = Append(hist, [n |-> n, f |-> f])
     /\ UNCHANGED <<c, phase>>
Train == /\ Mode = "filter" /\ hist = <<>> /\ \E n \in 1..2 : Deliver(n, One)
Increment == /\ Mode = "filter" /\ hist # <<>> /\ Len(hist) < MaxBatches
             /\ \E n \in 1..2 : \E f \in Forget : Deliver(n, f)
\* however the images were delivered, the state is that of the weighted whole
BatchEqualsIncrements == (Mode = "filter" /\ hist # <<>>) =>
   /\ M = SumUp(LAMBDA i : MScale(W[i], RM(NormalM(Patch(i)))), 1, Len(W))
   /\ v = SumUp(LAMBDA i : <<VScale(W[i], RV(NormalV(Patch(i))))>>, 1, Len(W))[1]
\* the filter is the unique solution of (M + Lambda I) g = v; displacement 0 is
\* stored at the centre of the grid
StoreAt(k, i, j) ==
  (k - 1) * N + ((i + Eh - (Eh \div 2)) % Eh) * Ew + ((j + Ew - (Ew \div 2)) % Ew)
FilterOut ==
  [g |-> c, l |-> Lambda, hist |-> hist, M |-> MAdd(M, MScale(Lambda, Ident(Len(M)))), v |-> v,
   xs |-> [i \in 1..Len(W) |-> Patch(i)],
   ext |-> [k \in 1..c.nk |-> [i \in 1..Eh |-> [j \in 1..Ew |-> StoreAt(k, i - 1, j - 1)]]],
   lead |-> <<Lead(c.hy, Eh), Lead(c.wy, Ew)>>]

\* ---------------------------------------------------------------- prob ----
Flat(m) == FlattenSeq_(m)
MinS(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
Prob(s) == LET lo == MinS(s)
               t == ISumSeq([i \in 1..Len(s) |-> s[i] - lo]) IN
           TLCEval([i \in 1..Len(s) |-> IF t = 0 THEN R(1, Len(s)) ELSE R(s[i] - lo, t)])
InitProb == \E h, w \in 1..MaxX, nk \in Chans : h * w > 1 /\
  \E s \in [1..nk -> 0..NSeeds] :
   c = [r |-> TLCEval([k \in 1..nk |-> [q \in 1..(h * w) |->
                IF s[k] = 0 THEN 3 ELSE Tex(s[k], (q - 1) \div w, (q - 1) % w, 1)]]),
        h |-> h, w |-> w]
ProbOk == (Mode = "prob") => \A k \in 1..Len(c.r) : LET p == Prob(c.r[k]) IN
   /\ SumSeq(p) = One
   /\ \A i \in 1..Len(p) : ~Lt(p[i], Zero)
   /\ \A i, j \in 1..Len(p) : (c.r[k][i] >= c.r[k][j]) => Le(p[j], p[i])
ProbOut == [r |-> c.r, h |-> c.h, w |-> c.w, p |-> [k \in 1..Len(c.r) |-> Prob(c.r[k])]]

\* ---------------------------------------------------------------- peak ----
InitPeak == \E ph, pw \in 7..MaxX, ch, cw \in 0..MaxF :
   \E dy, dx \in {-2, 0, 1} : c = [p |-> <<ph, pw>>, ctx |-> <<ph + 7 + ch, pw + 7 + cw>>, d |-> <<dy, dx>>]
\* the shape moved by d sees the dot at the centre moved by -d
PeakOut == [p |-> c.p, ctx |-> c.ctx, d |-> c.d,
            at |-> <<(c.p[1] \div 2) - c.d[1], (c.p[2] \div 2) - c.d[2]>>]

Init == /\ M = <<>> /\ v = <<>> /\ W = <<>> /\ hist = <<>> /\ phase = 0
        /\ CASE Mode = "conv" -> InitConv [] Mode = "pad" -> InitPad [] Mode = "filter" -> InitFilter
             [] Mode = "prob" -> InitProb [] Mode = "peak" -> InitPeak
Next == Train \/ Increment
Spec == Init /\ [][Next]_vars

Emit == (Mode = "filter" => hist # <<>>) => CSVWrite("%1$s", <<ToJson(
  CASE Mode = "conv" -> ConvOut [] Mode = "pad" -> PadOut [] Mode = "filter" -> FilterOut
    [] Mode = "prob" -> ProbOut [] Mode = "peak" -> PeakOut)>>, IOEnv.OUT)
=============================================================================
