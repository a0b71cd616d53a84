------------------------------- MODULE Cascade -------------------------------
(* Supervised descent.                                                        *)
(* "exact"  a world of one landmark that moves along one axis of small images *)
(*          of integers.  What is seen at a position is the value of the      *)
(*          nearest pixel (nothing: 0 outside of the image), so that the      *)
(*          regression of every stage has an exact rational solution.         *)
(*          Training, incrementing with a second set, and fitting.            *)
(* "scales" the starts that take part at every scale: labels <<image, box,    *)
(*          nth perturbation (0: the box itself)>> and how far they have been *)
(*          moved.                                                            *)
EXTENDS Rat, Json, IOUtils, CSV, TLC

CONSTANTS Mode, Tables, Truths,
          Starts,        \* where the search is started from in an image, one or several
          Stages, WithBias, WithIncrement,
          NImages, ScaleLists, Perturbations, BoxCounts

VARIABLES world,   \* set of images of a batch: [table, truth, starts]
          second,  \* the batch of the increment, if there is one
          batch, stage, cur, regs, trail, labels, moved, dead
vars == <<world, second, batch, stage, cur, regs, trail, labels, moved, dead>>

H == 5
Tie(x) == (2 * Num(x) + Den(x)) % (2 * Den(x)) = 0 /\ Den(x) # 1
Round(x) == (2 * Num(x) + Den(x)) \div (2 * Den(x))
See(t, x) == LET r == Round(x) IN IF r >= 0 /\ r < H THEN t[r + 1] ELSE 0
Modest(x) == Abs(Num(x)) < 40000 /\ Den(x) < 2000
Small(x) == Abs(Num(x)) < 4000 /\ Den(x) < 400
Near(x) == Round(x) > -6 /\ Round(x) < H + 5

Set == IF batch = 1 THEN world ELSE second
\* the samples, image after image (they need not have as many starts each)
RECURSIVE Flat(_, _)
Flat(S, i) == IF i > Len(S) THEN <<>> ELSE [k \in 1..Len(S[i].starts) |-> <<i, k>>] \o Flat(S, i + 1)
Samples == Flat(Set, 1)
Seq2(f(_, _)) == LET q == TLCEval(Samples) IN [k \in 1..Len(q) |-> f(q[k][1], q[k][2])]
F(i, s) == See(Set[i].table, cur[i][s])
D(i, s) == Sub(I(Set[i].truth), cur[i][s])
ISum(q) == Num(SumSeq([k \in 1..Len(q) |-> I(q[k])]))
\* the sums of the data of this stage
Sums == LET f1(i, s) == F(i, s)
            f2(i, s) == F(i, s) * F(i, s)
            d1(i, s) == D(i, s)
            fd(i, s) == Mul(I(F(i, s)), D(i, s)) IN
        [n |-> Len(Samples), f |-> ISum(Seq2(f1)), ff |-> ISum(Seq2(f2)), d |-> SumSeq(Seq2(d1)), fd |-> SumSeq(Seq2(fd))]
Plus(a, b) == [n |-> a.n + b.n, f |-> a.f + b.f, ff |-> a.ff + b.ff, d |-> Add(a.d, b.d), fd |-> Add(a.fd, b.fd)]
DetOf(z) == IF WithBias THEN z.n * z.ff - z.f * z.f ELSE z.ff
Slope(z) == IF WithBias THEN Div(Sub(Mul(I(z.n), z.fd), Mul(I(z.f), z.d)), I(DetOf(z))) ELSE Div(z.fd, I(z.ff))
Offset(z) == IF WithBias THEN Div(Sub(z.d, Mul(Slope(z), I(z.f))), I(z.n)) ELSE Zero
Moved(z, t, x) == Add(x, Add(Mul(Slope(z), I(See(t, x))), Offset(z)))

Worlds == {<<[table |-> t, truth |-> g, starts |-> s], [table |-> u, truth |-> h, starts |-> r]>> :
              t \in Tables, u \in Tables, g \in Truths, h \in Truths, s \in Starts, r \in Starts}
Positions(S) == [i \in 1..Len(S) |-> [s \in 1..Len(S[i].starts) |-> I(S[i].starts[s])]]
Start == /\ Mode = "exact" /\ world = <<>>
         /\ \E W \in Worlds : world' = W /\ cur' = Positions(W)
         /\ batch' = 1 /\ stage' = 0
         /\ UNCHANGED <<second, regs, trail, labels, moved, dead>>
\* how far from the truth the shapes are after a stage: what verbose training
\* reports of it
Ascending(q) == SortSeq(q, LAMBDA x, y : Lt(x, y))
Errors(nx) == LET e(i, s) == RAbs(Sub(I(Set[i].truth), nx[i][s])) IN Ascending(Seq2(e))
Median(q) == Mul(<<1, 2>>, Add(q[(Len(q) + 1) \div 2], q[Len(q) \div 2 + 1]))
\* one stage: what is seen at the current shapes, regressed on what is missing
\* to the truth, moves every one of them
Stage == /\ Mode = "exact" /\ world # <<>> /\ stage < Stages /\ ~dead
         /\ LET z0 == TLCEval(Sums)
                z == TLCEval(IF batch = 1 THEN z0 ELSE Plus(regs[stage + 1], z0))
                bad == DetOf(z) = 0 \/ ~Modest(z.d) \/ ~Modest(z.fd) IN
            IF bad THEN dead' = TRUE /\ UNCHANGED <<stage, cur, regs, trail>>
            ELSE LET nx == TLCEval([i \in 1..Len(Set) |-> [s \in 1..Len(cur[i]) |-> Moved(z, Set[i].table, cur[i][s])]])
                     fine == Small(Slope(z)) /\ Small(Offset(z)) /\
                             \A i \in 1..Len(Set) : \A s \in 1..Len(cur[i]) : Small(nx[i][s]) /\ Near(nx[i][s]) /\ ~Tie(nx[i][s]) IN
                 /\ cur' = nx /\ stage' = stage + 1 /\ dead' = ~fine
                 /\ regs' = IF batch = 1 THEN Append(regs, z) ELSE [regs EXCEPT ![stage + 1] = z]
                 /\ trail' = Append(trail, [batch |-> batch, stage |-> stage + 1, pos |-> nx,
                                            a |-> Slope(z), b |-> Offset(z),
                                            err |-> Errors(nx)])
         /\ UNCHANGED <<world, second, batch, labels, moved>>
Again == /\ Mode = "exact" /\ WithIncrement /\ batch = 1 /\ stage = Stages /\ ~dead
         /\ \E i \in {1, 2} : LET W == <<[world[i] EXCEPT !.starts = <<world[i].starts[Len(world[i].starts)], world[3 - i].starts[1]>>,
                                                        !.truth = world[3 - i].truth]>> IN
              second' = W /\ cur' = Positions(W)
         /\ batch' = 2 /\ stage' = 0
         /\ UNCHANGED <<world, regs, trail, labels, moved, dead>>
\* after a stage trained from nothing: what is left is orthogonal to what was
\* seen (least squares), so it is never more than before
Left(z) == Sub(z.fd, Add(Mul(Slope(z), I(z.ff)), Mul(Offset(z), I(z.f))))
Optimal == \A k \in 1..Len(regs) : DetOf(regs[k]) # 0 => Left(regs[k]) = Zero
BiasOptimal == WithBias => \A k \in 1..Len(regs) :
   Sub(regs[k].d, Add(Mul(Slope(regs[k]), I(regs[k].f)), Mul(Offset(regs[k]), I(regs[k].n)))) = Zero
ErrorsSorted == Mode = "exact" => \A k \in 1..Len(trail) : \A i \in 1..(Len(trail[k].err) - 1) : Le(trail[k].err[i], trail[k].err[i + 1])
OneRegressorPerStage == batch = 1 => Len(regs) = stage

\* fitting on an image of the world from every position
RECURSIVE Follow(_, _, _)
Follow(t, x, k) == IF k > Len(regs) \/ Tie(x) \/ ~Small(x) \/ ~Near(x) THEN <<x>> ELSE <<x>> \o Follow(t, Moved(regs[k], t, x), k + 1)
Fits == [i \in 1..Len(world) |-> [p \in 1..H |-> TLCEval(Follow(world[i].table, I(p - 1), 1))]]

\* ------------------------------------------------------------------ scales --
Labels(b, p) == IF b = 0 THEN [k \in 1..p |-> <<1, k>>]
                ELSE [k \in 1..(b * (p + 1)) |-> <<(k - 1) \div (p + 1) + 1, IF k % (p + 1) = 0 THEN 0 ELSE k % (p + 1)>>]
Deliver == /\ Mode = "scales" /\ world = <<>>
           /\ \E S \in ScaleLists, p \in Perturbations, b \in BoxCounts :
                /\ world' = <<[scales |-> S, perturbations |-> p, boxes |-> b]>>
                /\ labels' = [i \in 1..NImages |-> Labels(b[i], p)]
                /\ moved' = [i \in 1..NImages |-> [k \in 1..Len(Labels(b[i], p)) |-> 0]]
           /\ UNCHANGED <<second, batch, stage, cur, regs, trail, dead>>
\* at every scale all of them move (on the given image: by the same amount)
Descend == /\ Mode = "scales" /\ world # <<>> /\ stage < Len(world[1].scales)
           /\ stage' = stage + 1 /\ moved' = [i \in DOMAIN moved |-> [k \in DOMAIN moved[i] |-> moved[i][k] + 1]]
           /\ trail' = Append(trail, [scale |-> stage + 1, starts |-> labels])
           /\ UNCHANGED <<world, second, batch, cur, regs, labels, dead>>
AllTakePart == Mode = "scales" => \A i \in DOMAIN moved : \A k \in DOMAIN moved[i] : moved[i][k] = stage

Init == world = <<>> /\ second = <<>> /\ batch = 0 /\ stage = 0 /\ cur = <<>> /\ regs = <<>> /\ trail = <<>>
        /\ labels = <<>> /\ moved = <<>> /\ dead = FALSE
Next == Start \/ Stage \/ Again \/ Deliver \/ Descend
Spec == Init /\ [][Next]_vars
Emit == /\ (Mode = "exact" /\ ~dead /\ stage = Stages /\ (batch = 2 \/ ~WithIncrement)) =>
             CSVWrite("%1$s", <<ToJson([world |-> world, second |-> second, trail |-> trail, fits |-> Fits])>>, IOEnv.OUT)
        /\ (Mode = "scales" /\ world # <<>> /\ stage = Len(world[1].scales)) =>
             CSVWrite("%1$s", <<ToJson([conf |-> world[1], trail |-> trail])>>, IOEnv.OUT)
=============================================================================
