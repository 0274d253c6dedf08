------------------------------ MODULE TraceIO ------------------------------
\* Access to a recorded trace (one JSON object per line, file named by TRACE).
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NaNV == 1999999999            \* what the harnesses write for a NaN
BigV == 1500000000            \* ... and for a value out of range
IsNum(v) == v # NaNV /\ v < BigV /\ v > -BigV
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol
Has(r, f) == f \in DOMAIN r
\* All clauses of a judgement are evaluated; the names of the failing ones are
\* reported as <<"REJECT", line, names>>.
Failing(clauses) == { n \in DOMAIN clauses : ~clauses[n] }
Report(l, names) == IF names = {} THEN TRUE ELSE PrintT(<<"REJECT", l, ToString(names)>>)
Emit(rec) == PrintT("@@" \o ToJson(rec))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SeqSum(s) == LET RECURSIVE F(_, _)
                 F(i, acc) == IF i > Len(s) THEN acc ELSE F(i + 1, acc + s[i])
             IN F(1, 0)
Dot(a, b) == LET RECURSIVE F(_, _)
                 F(i, acc) == IF i > Len(a) THEN acc ELSE F(i + 1, acc + a[i] * b[i])
             IN F(1, 0)
SeqMax(s) == LET RECURSIVE F(_, _)
                 F(i, m) == IF i > Len(s) THEN m ELSE F(i + 1, IF s[i] > m THEN s[i] ELSE m)
             IN F(2, s[1])
AllNum(s) == \A i \in 1..Len(s) : IsNum(s[i])
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
=============================================================================
