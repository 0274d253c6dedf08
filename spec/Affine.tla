------------------------------- MODULE Affine -------------------------------
(* Affine integer forms [k |-> constant, a |-> coefficients] and the algebra  *)
(* of the expression trees a user can write; a tree is a tuple whose first    *)
(* element names the operator.                                                *)
EXTENDS LinAlg
AConst(c, n) == [k |-> c, a |-> VZero(n)]
AVar(i, n) == [k |-> 0, a |-> VUnit(n, i)]
AAdd(f, g) == [k |-> f.k + g.k, a |-> VAdd(f.a, g.a)]
ASub(f, g) == [k |-> f.k - g.k, a |-> VSub(f.a, g.a)]
AScale(c, f) == [k |-> c * f.k, a |-> VScale(c, f.a)]
AddK(f, c) == [f EXCEPT !.k = @ + c]
AVal(f, x) == f.k + VDot(f.a, x)

\* meaning of a tree over n variables ("/h" divides by one half; "/2" halves an even form)
RECURSIVE Sem(_, _)
Sem(t, n) ==
  LET o == t[1] IN
  CASE o = "c" -> AConst(t[2], n)
    [] o = "v" -> AVar(t[2], n)
    [] o = "+v" -> AVar(t[2], n)
    [] o = "-v" -> AScale(-1, AVar(t[2], n))
    [] o \in {"v*k", "k*v"} -> AScale(t[3], AVar(t[2], n))
    [] o = "v/h" -> AScale(2, AVar(t[2], n))
    [] o \in {"v+k", "k+v"} -> AAdd(AVar(t[2], n), AConst(t[3], n))
    [] o = "v-k" -> ASub(AVar(t[2], n), AConst(t[3], n))
    [] o = "k-v" -> ASub(AConst(t[3], n), AVar(t[2], n))
    [] o = "v+v" -> AAdd(AVar(t[2], n), AVar(t[3], n))
    [] o = "v-v" -> ASub(AVar(t[2], n), AVar(t[3], n))
    [] o \in {"+", "+="} -> AAdd(Sem(t[2], n), Sem(t[3], n))
    [] o \in {"-", "-="} -> ASub(Sem(t[2], n), Sem(t[3], n))
    [] o = "e+v" -> AAdd(Sem(t[2], n), AVar(t[3], n))
    [] o = "e-v" -> ASub(Sem(t[2], n), AVar(t[3], n))
    [] o = "v-e" -> ASub(AVar(t[3], n), Sem(t[2], n))
    [] o \in {"k+e", "e+k", "+=k"} -> AAdd(Sem(t[2], n), AConst(t[3], n))
    [] o \in {"e-k", "-=k"} -> ASub(Sem(t[2], n), AConst(t[3], n))
    [] o = "k-e" -> ASub(AConst(t[3], n), Sem(t[2], n))
    [] o \in {"k*e", "e*k", "*=k"} -> AScale(t[3], Sem(t[2], n))
    [] o \in {"/h", "/=h"} -> AScale(2, Sem(t[2], n))
    [] o \in {"/2", "/=2"} -> LET f == Sem(t[2], n) IN [k |-> f.k \div 2, a |-> [i \in 1..n |-> f.a[i] \div 2]]
    [] o = "-e" -> AScale(-1, Sem(t[2], n))
    [] o = "+e" -> Sem(t[2], n)
=============================================================================
