---------------------------- MODULE ScheduleTrace ----------------------------
(* Contact plans as loaded from a file and filled into the dynamics sequence,  *)
(* and terrain regions, against the scenario that was written to the file.     *)
EXTENDS TraceIO, Schedule, FiniteSets
VARIABLE l
Cm(v) == [i \in 1..Len(v) |-> 10000 * v[i]]
Mi(v) == [i \in 1..Len(v) |-> 1000 * v[i]]
SameV(a, v) == NearSeq(a, Cm(v), 1)
SameQ(a, q) == NearSeq(a, Mi(q), 1)
Ids(P, f) == SeqSum([g \in 1..(f - 1) |-> Len(P.feet[g])])
ViaIds(P, f) == SeqSum([g \in 1..(f - 1) |-> Len(P.vias[g])])
Loaded(P, o, f) ==
  LET cs == P.feet[f]  g == o.feet[f].contacts
  IN Len(g) = Len(cs) /\ \A c \in 1..Len(cs) :
       Near(g[c].s, 1000 * cs[c].s, 1) /\ Near(g[c].e, 1000 * cs[c].e, 1) /\ SameV(g[c].pos, cs[c].pos) /\ SameQ(g[c].ori, cs[c].ori)
       /\ g[c].typ = cs[c].typ /\ g[c].ter = cs[c].ter /\ g[c].opt = Ids(P, f) + c - 1
LoadedVias(P, o, f) == LET g == o.feet[f].vias vs == P.vias[f] IN Len(g) = Len(vs) /\ \A i \in 1..Len(vs) : g[i].id = vs[i].id /\ g[i].opt = ViaIds(P, f) + i - 1 /\ SameV(g[i].pos, vs[i].pos) /\ SameQ(g[i].ori, vs[i].ori)
RobotOk(P, r) == SameV(r.com, P.com) /\ SameV(r.lmom, P.lmom) /\ SameV(r.amom, P.amom)
  /\ \A f \in 1..4 : r.feet[f].act = P.ini[f].act /\ SameV(r.feet[f].pos, P.ini[f].pos) /\ SameQ(r.feet[f].ori, P.ini[f].ori) /\ SameV(r.feet[f].frc, P.ini[f].frc)
JudgePlan(s, P, o) ==
  LET Rows == TLCEval([f \in 1..4 |-> TLCEval(Row(Live(P.feet[f]), s.dt, s.n))])
      F(f) == o.feet[f].fill
      Act(f) == ActiveSteps(Rows[f])
  IN
  [steps |-> o.steps = s.n,
   contacts |-> \A f \in 1..4 : Loaded(P, o, f),
   numbered |-> o.contacts = Ids(P, 5),
   viapoints |-> s.kin => \A f \in 1..4 : LoadedVias(P, o, f),
   robot |-> RobotOk(P, o.robot),
   activation |-> \A f \in 1..4, k \in 1..s.n : F(f)[k].act = (k \in Act(f)),
   identity |-> \A f \in 1..4 : \A k \in Act(f) : F(f)[k].cnt = Rows[f][k] - 1,
   placement |-> \A f \in 1..4 : \A k \in Act(f) : LET c == P.feet[f][Rows[f][k]] IN SameV(F(f)[k].pos, c.pos) /\ SameQ(F(f)[k].ori, c.ori),
   count |-> \A f \in 1..4 : o.feet[f].count = Cardinality(Act(f)),
   dense |-> \A f \in 1..4 : { F(f)[k].num : k \in Act(f) } = 0..(Cardinality(Act(f)) - 1),
   \* building the swing references leaves the schedule alone
   kept |-> \A f \in 1..4, k \in 1..s.n : LET w == o.feet[f].swing[k] IN w.act = F(f)[k].act /\ (F(f)[k].act => w.cnt = F(f)[k].cnt /\ w.num = F(f)[k].num)]
JudgeSched(s, r) == LET J == TLCEval([p \in 1..Len(s.plans) |-> JudgePlan(s, s.plans[p], r.plans[p])]) IN [n \in DOMAIN J[1] |-> \A p \in 1..Len(s.plans) : J[p][n]]
\* ---- terrain
Cr(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
\* p in quarters: on the same side of (or on) every edge
Inside(poly, p) == LET n == Len(poly) Q == [i \in 1..n |-> <<4 * poly[i][1], 4 * poly[i][2]>>]  V == [i \in 1..n |-> Cr(Q[i], Q[(i % n) + 1], p)]
  IN (\A i \in 1..n : V[i] >= 0) \/ (\A i \in 1..n : V[i] <= 0)
Centroid(g, j) == LET n == Len(g.poly) sx == SeqSum([i \in 1..n |-> g.poly[i][1]]) sy == SeqSum([i \in 1..n |-> g.poly[i][2]]) IN (1000000 * (n * g.o[j] + sx * g.fr[1][j] + sy * g.fr[2][j])) 
\* axes at 1e4: unit, orthogonal, right handed, the third along the normal, the first along the first edge
Dot4(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross4(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
IsRotation(m) == /\ \A i, j \in 1..3 : IsNum(m[i][j])
                 /\ \A i, j \in 1..3 : Abs(Dot4(m[i], m[j]) - (IF i = j THEN 100000000 ELSE 0)) <= 40000
                 /\ \A j \in 1..3 : Abs(Cross4(m[1], m[2])[j] - 10000 * m[3][j]) <= 40000
JudgeTerrain(s, r) ==
  [regions |-> r.n = Len(s.regs),
   ids |-> \A i \in 1..Len(r.regs) : r.regs[i].id = i - 1,
   inside |-> \A i \in 1..Len(r.regs) : \A j \in 1..Len(s.pts[i]) : r.regs[i].in[j] = (IF Inside(s.regs[i].poly, s.pts[i][j]) THEN 1 ELSE 0),
   normal |-> \A i \in 1..Len(r.regs) : Near(r.regs[i].norm, 1000000, 2) /\ NearSeq(r.regs[i].perp, <<0, 0>>, 20),
   rotation |-> \A i \in 1..Len(r.regs) : IsRotation(r.regs[i].rot) /\ (NearSeq(r.regs[i].rot[3], r.regs[i].nrm, 2) \/ NearSeq(r.regs[i].rot[3], [j \in 1..3 |-> -(r.regs[i].nrm[j])], 2)) /\ Near(r.regs[i].along, 0, 20) /\ Near(r.regs[i].quat, 0, 20),
   point |-> \A i \in 1..Len(r.regs) : \A j \in 1..3 : IsNum(r.regs[i].point[j]) /\ Abs(r.regs[i].point[j] * Len(s.regs[i].poly) - Centroid(s.regs[i], j)) <= 20]
Judge(r) == CASE r.event = "sched" -> JudgeSched(r.s, r) [] r.event = "terrain" -> JudgeTerrain(r.s, r) [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
