------------------------------ MODULE WriteExpr ------------------------------
(* Ways of writing an affine form down: random expression trees over all the  *)
(* operators, completed so that the whole means the given form.               *)
EXTENDS Affine, Rand
\* d selects the draws; every tree's meaning is computed by Sem, so nothing here can be wrong
LOCAL R(ww, d, a, b) == RI(ww, 0, d, a, b)
RECURSIVE Tree(_, _, _, _)
Tree(ww, n, d, depth) ==
  LET o == R(ww, d, 1, IF depth = 0 THEN 11 ELSE 34) k == R(ww, d + 1, -2, 3) i == R(ww, d + 2, 1, n) j == R(ww, d + 3, 1, n)
      e1 == Tree(ww, n, ((d * 3 + 1) % 40000) + 11, depth - 1) e2 == Tree(ww, n, ((d * 5 + 2) % 40000) + 17, depth - 1) IN
  CASE o = 1 -> <<"c", k>> [] o = 2 -> <<"v", i>> [] o = 3 -> <<"v*k", i, k>> [] o = 4 -> <<"k*v", i, k>>
    [] o = 5 -> <<"v/h", i>> [] o = 6 -> <<"v+k", i, k>> [] o = 7 -> <<"k+v", i, k>> [] o = 8 -> <<"v-k", i, k>>
    [] o = 9 -> <<"k-v", i, k>> [] o = 10 -> <<"v+v", i, j>> [] o = 11 -> <<"v-v", i, j>>
    [] o \in {12, 13} -> <<"+", e1, e2>> [] o = 14 -> <<"+=", e1, e2>> [] o = 15 -> <<"-=", e1, e2>>
    [] o \in {16, 17} -> <<"-", e1, e2>> [] o = 18 -> <<"e+v", e1, i>> [] o = 19 -> <<"e-v", e1, i>>
    [] o = 20 -> <<"v-e", e1, i>> [] o = 21 -> <<"k+e", e1, k>> [] o = 22 -> <<"e+k", e1, k>>
    [] o = 23 -> <<"+=k", e1, k>> [] o = 24 -> <<"e-k", e1, k>> [] o = 25 -> <<"-=k", e1, k>>
    [] o = 26 -> <<"k-e", e1, k>> [] o = 27 -> <<"k*e", e1, k>> [] o = 28 -> <<"e*k", e1, k>>
    [] o = 29 -> <<"*=k", e1, k>> [] o = 30 -> <<"/h", e1>> [] o = 31 -> <<"/=h", e1>>
    [] o = 32 -> <<"/2", <<"k*e", e1, 2>> >> [] o = 33 -> <<"-e", e1>> [] o = 34 -> <<"/=2", <<"e*k", e1, 2>> >>
\* the sum of monomials, each possibly split in two, in forward or reverse order
RECURSIVE Mono(_, _, _, _, _)
Mono(ww, n, f, i, d) ==
  IF i = 0 THEN <<"c", f.k>> ELSE
  LET acc == Mono(ww, n, f, i - 1, d)
      c == f.a[i] p == R(ww, d + i, -2, 2) m == R(ww, d + 20 + i, 1, 5) IN
  CASE m = 1 -> <<"+", acc, <<"v*k", i, c>> >>
    [] m = 2 -> <<"+=", <<"+", acc, <<"v*k", i, p>> >>, <<"k*v", i, c - p>> >>
    [] m = 3 -> <<"-", acc, <<"k*v", i, -c>> >>
    [] m = 4 -> <<"+", <<"k*v", i, c>>, acc>>
    [] OTHER -> IF c = 1 THEN <<"e+v", acc, i>> ELSE IF c = -1 THEN <<"e-v", acc, i>> ELSE <<"-=", acc, <<"v*k", i, -c>> >>
Sum1(ww, n, f, d) == Mono(ww, n, f, n, d)
Write(ww, n, f, d) == LET t == Tree(ww, n, d, 2) IN
  IF R(ww, d + 7, 0, 2) = 0 THEN Sum1(ww, n, f, d + 30)
  ELSE IF R(ww, d + 7, 0, 2) = 1 THEN <<"+", t, Sum1(ww, n, ASub(f, Sem(t, n)), d + 30)>>
  ELSE <<"-", Sum1(ww, n, AAdd(f, Sem(t, n)), d + 30), t>>

=============================================================================
