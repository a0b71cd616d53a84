--------------------------------- MODULE Tri ---------------------------------
(* Triangles over the integer grid: containment and barycentric weights.      *)
EXTENDS Rat
Cr(a, b) == a[1] * b[2] - a[2] * b[1]
D2(a, b) == <<b[1] - a[1], b[2] - a[2]>>
Area(s, t) == Cr(D2(s[t[1]], s[t[2]]), D2(s[t[1]], s[t[3]]))
\* barycentric weights times the area
Bar(s, t, q) == LET w == D2(s[t[1]], q) IN
  LET be == Cr(w, D2(s[t[1]], s[t[3]]))
      ga == Cr(D2(s[t[1]], s[t[2]]), w) IN <<Area(s, t) - be - ga, be, ga>>
In(s, t, q) == LET b == Bar(s, t, q) IN \A k \in 1..3 : b[k] * Area(s, t) >= 0
Within(s, t, q) == LET b == Bar(s, t, q) IN \A k \in 1..3 : b[k] * Area(s, t) > 0
\* the point of m (numbers) that corresponds to q of s
FromTri(s, m, t, q) == LET b == Bar(s, t, q) IN
  <<R(b[1] * m[t[1]][1] + b[2] * m[t[2]][1] + b[3] * m[t[3]][1], Area(s, t)),
    R(b[1] * m[t[1]][2] + b[2] * m[t[2]][2] + b[3] * m[t[3]][2], Area(s, t))>>
Lo(s, d) == CHOOSE v \in {s[p][d] : p \in 1..Len(s)} : \A p \in 1..Len(s) : v <= s[p][d]
Hi(s, d) == CHOOSE v \in {s[p][d] : p \in 1..Len(s)} : \A p \in 1..Len(s) : v >= s[p][d]
Box(s, m) == ((Lo(s, 1) - m)..(Hi(s, 1) + m)) \X ((Lo(s, 2) - m)..(Hi(s, 2) + m))
PatchAt(c, z) == ((c[1] - z[1] \div 2)..(c[1] + z[1] \div 2)) \X ((c[2] - z[2] \div 2)..(c[2] + z[2] \div 2))
=============================================================================
