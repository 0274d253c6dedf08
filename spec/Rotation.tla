------------------------------ MODULE Rotation ------------------------------
(* Orientations as integer quaternions <<w, x, y, z>> (any positive multiple,  *)
(* and the negative, stand for the same rotation).  A rotation about an axis   *)
(* with integer length L, whose half angle has tangent p/q, is the quaternion  *)
(* <<q*L, p*axis>>: its matrix is rational and its logarithm is                *)
(* 2*atan(p/q)*axis/L.                                                         *)
EXTENDS FixPoint, LinAlg
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
QVec(q) == << q[2], q[3], q[4] >>
QMul(a, b) ==
  LET c == Cross(QVec(a), QVec(b))
      v == [i \in 1..3 |-> a[1] * b[i + 1] + b[1] * a[i + 1] + c[i]]
  IN << a[1] * b[1] - VDot(QVec(a), QVec(b)) >> \o v
QConj(q) == << q[1], -q[2], -q[3], -q[4] >>
QN2(q) == VDot(q, q)
QDot(a, b) == VDot(a, b)
Skew(v) == << << 0, -v[3], v[2] >>, << v[3], 0, -v[1] >>, << -v[2], v[1], 0 >> >>
\* rotation matrix times the squared norm
RotN(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  << << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y) >>,
     << 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x) >>,
     << 2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >> >>
RotFx(q) == LET n == QN2(q) M == RotN(q) IN [i \in 1..3 |-> [j \in 1..3 |-> FxDiv(M[i][j], n)]]
TransFx(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]
\* axes of integer length, with an orthogonal companion triad (rows)
Axes == << [a |-> <<1, 0, 0>>, l |-> 1, e |-> <<0, 1, 0>>], [a |-> <<0, 0, 1>>, l |-> 1, e |-> <<1, 0, 0>>],
           [a |-> <<0, -1, 0>>, l |-> 1, e |-> <<1, 0, 0>>],
           [a |-> <<1, 2, 2>>, l |-> 3, e |-> <<2, 1, -2>>], [a |-> <<2, -2, 1>>, l |-> 3, e |-> <<1, 2, 2>>],
           [a |-> <<2, 3, 6>>, l |-> 7, e |-> <<3, -6, 2>>], [a |-> <<-6, 2, 3>>, l |-> 7, e |-> <<2, 3, 2>>],
           [a |-> <<3, 4, 0>>, l |-> 5, e |-> <<-4, 3, 0>>], [a |-> <<0, -3, 4>>, l |-> 5, e |-> <<0, 4, 3>>],
           [a |-> <<4, 4, 7>>, l |-> 9, e |-> <<1, -1, 0>>], [a |-> <<-1, 4, 8>>, l |-> 9, e |-> <<8, 0, 1>>] >>
\* the rotation [ax (index), p, q]: half-angle tangent p/q, q >= 0, not both 0
QOf(r) == << r.q * Axes[r.ax].l >> \o VScale(r.p, Axes[r.ax].a)
Half(r) == IF r.p < 0 THEN -AtanFx(-r.p, r.q) ELSE AtanFx(r.p, r.q)         \* in [-pi/2, pi/2]
Angle(r) == 2 * Half(r)
AlongFx(x, ax) == [i \in 1..3 |-> LET n == x * Axes[ax].a[i] IN TDiv(n, Axes[ax].l)]
LogFx(r) == AlongFx(Angle(r), r.ax)
HalfTurn(r) == r.q = 0
=============================================================================
