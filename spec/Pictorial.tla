----------------------------- MODULE Pictorial ------------------------------
(* The deformation model of pictorial structures.  The graph between the      *)
(* landmarks is the one given or, where none is given, the tree that spans    *)
(* them at the least cost: an edge costs (a monotone function of) the spread  *)
(* of the displacement between its two landmarks over the training shapes,    *)
(* the determinant of its scatter.  The tree is grown from its root.  The     *)
(* model scores a shape by the squared deviations of the displacements along  *)
(* the edges, each in units of its own spread.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Sets,     \* training sets: sequences of shapes, sequences of <<y, x>>
          Graphs,   \* graphs that may be given: sets of <<parent, child>>
          Probes    \* per training set, the shapes that are scored

VARIABLES s,        \* training set
          given,    \* graph given ({}: none)
          parent    \* of every landmark that has been reached (the root: itself)
vars == <<s, given, parent>>

Shapes == Sets[s]
n == Len(Shapes)
V == 1..Len(Shapes[1])
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
D(i, j, c) == [k \in 1..n |-> Shapes[k][i][c] - Shapes[k][j][c]]
Dot(f, g) == Sum([k \in 1..n |-> f[k] * g[k]], n)
\* n times the scatter of the displacement
S(i, j, a, b) == n * Dot(D(i, j, a), D(i, j, b)) - Sum(D(i, j, a), n) * Sum(D(i, j, b), n)
Cost(i, j) == S(i, j, 1, 1) * S(i, j, 2, 2) - S(i, j, 1, 2) * S(i, j, 1, 2)
Pairs == {p \in V \X V : p[1] < p[2]}
\* sets for which there is a tree, and just one, that costs the least
Clear == /\ \A p \in Pairs : Cost(p[1], p[2]) > 0
         /\ \A p, q \in Pairs : p # q => Cost(p[1], p[2]) # Cost(q[1], q[2])

Init == /\ s \in 1..Len(Sets) /\ Clear
        /\ given \in {{}} \cup {g \in Graphs : \A e \in g : e[1] \in V /\ e[2] \in V}
        /\ parent = IF given = {} THEN (1 :> 1) ELSE <<>>
In == DOMAIN parent
Cut == {p \in In \X (V \ In) : TRUE}
Grow == /\ given = {} /\ In # V
        /\ \E p \in Cut : /\ \A q \in Cut : Cost(p[1], p[2]) <= Cost(q[1], q[2])
                          /\ parent' = (p[2] :> p[1]) @@ parent
        /\ UNCHANGED <<s, given>>
Next == Grow
Spec == Init /\ [][Next]_vars
Done == given # {} \/ In = V
Edges == IF given # {} THEN given ELSE {<<parent[c], c>> : c \in V \ {1}}

RECURSIVE Up(_)
Up(c) == IF c = 1 THEN {} ELSE {c} \cup Up(parent[c])   \* edges to the root, by child
\* every other edge would cost more than any edge of the tree that it could replace
Cheapest == (Done /\ given = {}) =>
   \A p \in Pairs : \/ parent[p[1]] = p[2] \/ parent[p[2]] = p[1]
                    \/ LET path == (Up(p[1]) \ Up(p[2])) \cup (Up(p[2]) \ Up(p[1])) IN
                       \A c \in path : Cost(parent[c], c) < Cost(p[1], p[2])
Spans == (Done /\ given = {}) => Cardinality(Edges) = Cardinality(V) - 1

\* squared deviation of x along an edge: num / den times (n - 1) / n
Dev(x, e, c) == n * (x[e[1]][c] - x[e[2]][c]) - Sum(D(e[1], e[2], c), n)
Num(x, e) == LET a == Dev(x, e, 1) b == Dev(x, e, 2) IN
   S(e[1], e[2], 2, 2) * a * a - 2 * S(e[1], e[2], 1, 2) * a * b + S(e[1], e[2], 1, 1) * b * b
Score(x) == {[edge |-> e, num |-> Num(x, e), den |-> Cost(e[1], e[2])] : e \in Edges}
\* the spread is never negative, and the mean shape deviates nowhere
NotNegative == Done => \A p \in 1..Len(Probes[s]) : \A r \in Score(Probes[s][p]) : r.num >= 0
MeanNum == [v \in V |-> [c \in 1..2 |-> Sum([k \in 1..n |-> Shapes[k][v][c]], n)]]
Spread(e) == [edge |-> e, c11 |-> S(e[1], e[2], 1, 1), c12 |-> S(e[1], e[2], 1, 2), c22 |-> S(e[1], e[2], 2, 2)]
Emit == Done => CSVWrite("%1$s", <<ToJson([s |-> s, given |-> given, n |-> n, edges |-> Edges, mean |-> MeanNum,
             spread |-> {Spread(e) : e \in Edges},
             scores |-> [p \in 1..Len(Probes[s]) |-> Score(Probes[s][p])]])>>, IOEnv.OUT)
=============================================================================
