-------------------------------- MODULE Ecc ---------------------------------
(* One step of aligning by the enhanced correlation coefficient, in exact     *)
(* rational arithmetic.  Of the two images compared one is linearised in the  *)
(* parameters (the warped image, or in the inverse framework the template)    *)
(* and the other one is a reference; intensities are normalised to mean zero  *)
(* and norm one.  The step is the best one: no other parameters make the      *)
(* linearised image correlate better with the reference.                      *)
EXTENDS Rat, Json, IOUtils, CSV

CONSTANTS Patterns,    \* integer images of zero mean and integer norm
          Slopes,      \* columns the matrices of steepest descent images are made of
          NParams      \* the numbers of parameters

VARIABLES lin, ref, G, inverse
vars == <<lin, ref, G, inverse>>

RECURSIVE RootR(_, _)
RootR(n, k) == IF k * k = n THEN k ELSE RootR(n, k + 1)
Unit(p) == LET n == RootR(ISumSeq([i \in 1..Len(p) |-> p[i] * p[i]]), 1) IN
           TLCEval([i \in 1..Len(p) |-> R(p[i], n)])
\* pixels x parameters
Q == TLCEval(Tr(RM(G)))
\* everything about the step, once
Facts ==
  LET J == TLCEval(RM(G))
      H == TLCEval(MatMul(J, Q))
      l == Unit(lin)
      r == Unit(ref)
      Gl == MatVec(J, l)
      Gr == MatVec(J, r)
      hl == SolveV(H, Gl)
      hr == SolveV(H, Gr)
      \* what remains of the images where the parameters do not reach
      num == TLCEval(Sub(Dot(l, l), Dot(Gl, hl)))
      den == TLCEval(Sub(Dot(r, l), Dot(Gr, hl)))
      reach == TLCEval(Dot(Gr, hr))
      positive == Lt(Zero, den)
      best == IF positive THEN Div(num, den) ELSE Zero
      \* the error the step removes: the reference is scaled
      push == VSub(Gl, VScale(best, Gr))
  IN TLCEval([h |-> H, l |-> l, r |-> r, Gl |-> Gl, Gr |-> Gr, num |-> num, den |-> den, reach |-> reach, positive |-> positive,
      best |-> best, push |-> push, step |-> VSub(VScale(best, hr), hl), l1 |-> Dot(Gl, hl)])
Regular == Num(Det(MatMul(RM(G), Q))) # 0

Init == /\ lin \in Patterns /\ ref \in Patterns /\ inverse \in BOOLEAN
        /\ \E n \in NParams : G \in [1..n -> Slopes]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the correlation with the linearised image is positive and stationary after
\* the step (it has one such place only, its greatest value) ...
Optimal(f) == f.positive /\ f.num # Zero =>
  LET y == VAdd(f.l, MatVec(Q, f.step))
      c == TLCEval(Dot(f.r, y))
      n == TLCEval(Dot(y, y)) IN
  Lt(Zero, c) /\ VScale(n, MatVec(RM(G), f.r)) = VScale(c, MatVec(RM(G), y))
\* ... and the step is zero exactly where the correlation is stationary
Rests(f) == f.positive /\ f.num # Zero =>
  ((f.step = VZero(Len(G))) <=> (f.Gr = VScale(Dot(f.r, f.l), f.Gl)))

Case == Regular => LET f == Facts IN
  /\ Optimal(f)
  /\ Rests(f)
  /\ f.reach # Zero /\ f.den # Zero /\ (f.positive => f.num # Zero) =>
       CSVWrite("%1$s", <<ToJson([lin |-> lin, ref |-> ref, G |-> G, inverse |-> inverse, positive |-> f.positive,
         best |-> f.best, push |-> f.push, pull |-> f.Gr, h |-> f.h,
         l1 |-> IF f.positive THEN Zero ELSE Div(f.l1, f.reach),
         l2 |-> IF f.positive THEN Zero ELSE Neg(Div(f.den, f.reach))])>>, IOEnv.OUT)
=============================================================================
