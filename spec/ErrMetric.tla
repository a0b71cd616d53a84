----------------------------- MODULE ErrMetric ------------------------------
(* Error metrics on lattice shapes whose point distances are integers, so     *)
(* that every metric is rational up to one final square root.                 *)
(*  "base"   small shapes: mean distance, RMS, box and indexed normalisers    *)
(*  "face"   facial mark-ups of 68, 66, 51 and 49 points                      *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Mode, NPts, Lattice, Variants, Dim

Vec == IF Dim = 2
       THEN << <<0,0>>, <<3,4>>, <<4,-3>>, <<5,0>>, <<0,-5>>, <<6,8>>, <<-8,6>>, <<5,12>> >>
       ELSE << <<0,0,0>>, <<1,2,2>>, <<2,-3,6>>, <<0,0,-4>>, <<4,4,7>>, <<3,4,0>>, <<-2,-1,2>>, <<0,-5,12>> >>
Len2(u) == ISumSeq([i \in 1..Len(u) |-> u[i] * u[i]])
VLen == IF Dim = 2 THEN <<0, 5, 5, 5, 5, 10, 10, 13>> ELSE <<0, 3, 7, 4, 9, 5, 3, 13>>
ASSUME \A i \in 1..8 : VLen[i] * VLen[i] = Len2(Vec[i])

VARIABLES gt, dv, norm, idx, face, phase
vars == <<gt, dv, norm, idx, face, phase>>

MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxI(S) == CHOOSE x \in S : \A y \in S : x >= y
SumF(f, S) == LET RECURSIVE go(_)
                  go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + go(T \ {x})
              IN go(S)

\* ------------------------------------------------------------- base ------
Pt(i) == gt[i]
Moved == [i \in 1..Len(gt) |-> [k \in 1..Dim |-> gt[i][k] + Vec[dv[i]][k]]]
Euc(d) == R(ISumSeq([i \in 1..Len(d) |-> VLen[d[i]]]), Len(d))
Rms2(d) == R(ISumSeq([i \in 1..Len(d) |-> VLen[d[i]] * VLen[d[i]]]), Dim * Len(d))
Ext(s, k) == MaxI({s[i][k] : i \in 1..Len(s)}) - MinI({s[i][k] : i \in 1..Len(s)})
Box(s) == [h |-> Ext(s, 1), w |-> Ext(s, 2)]
Area(s) == Box(s).h * Box(s).w
Perim(s) == 2 * (Box(s).h + Box(s).w)
Edge(s) == R(Box(s).h + Box(s).w, 2)
Diag2(s) == Box(s).h * Box(s).h + Box(s).w * Box(s).w
Dist2(s, i, j) == Len2([k \in 1..Dim |-> s[i][k] - s[j][k]])

Init == /\ gt = <<>> /\ dv = <<>> /\ norm = <<>> /\ idx = <<1, 2>> /\ phase = "build"
        /\ face = [s |-> 0, g |-> 0, a |-> 0, b |-> 0]
\* a point of the ground truth, how far the fit is from it, and a point of a
\* separate normalising shape
AddPoint == /\ Mode = "base" /\ phase = "build" /\ Len(gt) < NPts
            /\ \E p \in Lattice, q \in Lattice, v \in 1..8 :
                 /\ gt' = Append(gt, p) /\ dv' = Append(dv, v)
                 /\ norm' = Append(norm, [k \in 1..Dim |-> IF k = 1 THEN 2 * q[1] + p[2]
                                                           ELSE q[k] - p[k - 1]])
            /\ UNCHANGED <<idx, face, phase>>
DoneBase == /\ Mode = "base" /\ phase = "build" /\ Len(gt) = NPts
            /\ \E i, j \in 1..NPts : i < j /\ idx' = <<i, j>>
            /\ phase' = "done" /\ UNCHANGED <<gt, dv, norm, face>>

\* ------------------------------------------------------------- faces -----
Sizes == {68, 66, 51, 49, 67}
\* 0-based indices of the 68 mark-up present in each mark-up
Keep(m) == CASE m = 68 -> 0..67 [] m = 66 -> (0..67) \ {60, 64}
             [] m = 51 -> 17..67 [] m = 49 -> (17..67) \ {60, 64} [] m = 67 -> 0..66
FacePt(i) == <<((i * 7) % 31) + 2 * (i % 5), ((i * 11) % 37) + 3 * (i % 4)>>
Code(i) == ((face.a * i + face.b * i * i + i \div 3) % 8) + 1
LeftEye == 36..41
RightEye == 42..47
FaceErr(core) == R(SumF([i \in 0..67 |-> VLen[Code(i)]], core), Cardinality(core))
PupilD2 == LET d == [k \in 1..2 |-> SumF([i \in 0..67 |-> FacePt(i)[k]], LeftEye)
                                      - SumF([i \in 0..67 |-> FacePt(i)[k]], RightEye)]
           IN R(Len2(d), 36)
OuterD2 == I(Len2(<<FacePt(36)[1] - FacePt(45)[1], FacePt(36)[2] - FacePt(45)[2]>>))
FaceEdge == LET S == {FacePt(i) : i \in 0..67} IN
            R(MaxI({p[1] : p \in S}) - MinI({p[1] : p \in S})
              + MaxI({p[2] : p \in S}) - MinI({p[2] : p \in S}), 2)
Accepts == [pupil68 |-> [s |-> {68}, g |-> {68}], outer68 |-> [s |-> {68}, g |-> {68}],
            bb68 |-> [s |-> {68}, g |-> {68}],
            pupil49 |-> [s |-> {68, 66, 51, 49}, g |-> {68, 66, 51, 49}],
            outer49 |-> [s |-> {68, 66, 51, 49}, g |-> {68, 66, 51, 49}],
            outer51 |-> [s |-> {68, 51}, g |-> {68, 51}],
            bb49 |-> [s |-> {68, 66, 51, 49}, g |-> {68}]]
Core(m) == CASE m \in {"pupil68", "outer68", "bb68"} -> Keep(68)
             [] m \in {"pupil49", "outer49", "bb49"} -> Keep(49) [] m = "outer51" -> Keep(51)
Norm2(m) == CASE m \in {"pupil68", "pupil49"} -> PupilD2
              [] m \in {"outer68", "outer49", "outer51"} -> OuterD2
              [] m \in {"bb68", "bb49"} -> Mul(FaceEdge, FaceEdge)
Face == /\ Mode = "face" /\ phase = "build"
        /\ \E s, g \in Sizes, a \in 0..Variants, b \in 0..Variants :
             face' = [s |-> s, g |-> g, a |-> a, b |-> b]
        /\ phase' = "done" /\ UNCHANGED <<gt, dv, norm, idx>>

Next == AddPoint \/ DoneBase \/ Face
Spec == Init /\ [][Next]_vars
Done == phase = "done"

ZeroIffSame == (Done /\ Mode = "base") =>
   /\ (Euc(dv) = Zero) <=> (Moved = gt)
   /\ (Rms2(dv) = Zero) <=> (Moved = gt)
Scaled(s, k) == [i \in 1..Len(s) |-> [c \in 1..Dim |-> k * s[i][c] + 5 - 3 * c]]
\* translation leaves every normaliser alone, scaling multiplies lengths
Scaling == (Done /\ Mode = "base") =>
   /\ Perim(Scaled(gt, 3)) = 3 * Perim(gt) /\ Diag2(Scaled(gt, 3)) = 9 * Diag2(gt)
   /\ Area(Scaled(gt, 3)) = 9 * Area(gt)
   /\ Dist2(Scaled(gt, 1), idx[1], idx[2]) = Dist2(gt, idx[1], idx[2])
\* the mark-ups nest, and every one the metric accepts contains its core
Nesting == (Done /\ Mode = "face") => \A m \in DOMAIN Accepts :
   \A z \in Accepts[m].s \cup Accepts[m].g : Core(m) \subseteq Keep(z)
EyesInside == LeftEye \cup RightEye \subseteq Keep(49)
CorrectSizes == \A z \in Sizes : Cardinality(Keep(z)) = z

\* (only shapes with a proper box can normalise)
Usable == IF Mode = "face" THEN TRUE
          ELSE Area(gt) > 0 /\ Area(norm) > 0 /\ Dist2(gt, idx[1], idx[2]) > 0
Emit == (Done /\ Usable) =>
  CSVWrite("%1$s", <<ToJson(
    IF Mode = "base" THEN
      [gt |-> gt, shape |-> Moved, norm |-> norm, idx |-> <<idx[1] - 1, idx[2] - 1>>,
       euc |-> Euc(dv), rms2 |-> Rms2(dv),
       g |-> [area |-> I(Area(gt)), perimeter |-> I(Perim(gt)), edge |-> Edge(gt), diag2 |-> I(Diag2(gt))],
       n |-> [area |-> I(Area(norm)), perimeter |-> I(Perim(norm)), edge |-> Edge(norm), diag2 |-> I(Diag2(norm))],
       dist2 |-> I(Dist2(gt, idx[1], idx[2]))]
    ELSE
      [s |-> face.s, g |-> face.g,
       gt |-> [i \in 1..68 |-> FacePt(i - 1)], dv |-> [i \in 1..68 |-> Vec[Code(i - 1)]],
       keeps |-> [i \in 1..68 |-> (i - 1) \in Keep(face.s)], keepg |-> [i \in 1..68 |-> (i - 1) \in Keep(face.g)],
       metrics |-> [m \in DOMAIN Accepts |->
          [ok |-> face.s \in Accepts[m].s /\ face.g \in Accepts[m].g,
           err |-> FaceErr(Core(m)), norm2 |-> Norm2(m)]]])>>, IOEnv.OUT)
=============================================================================
