---------------------------- MODULE ResampleTrace ----------------------------
(* Desired states and exported files of the Python execution front end.        *)
EXTENDS Resample, TraceIO
VARIABLE l
\* the value of field f at plan step k (from 1), column c (from 1)
PV(s, f, k, c) == LET m == IF f \in 11..13 THEN 49 ELSE 1999 h == f * 131 + (k - 1) * (k - 1) * 17 + (k - 1) * (c - 1) * 29 + (c - 1) * 61 + s.salt IN (h % m) - m \div 2
On(s, foot, k) == ((foot * 7 + ((k - 1) \div 2) * 5 + s.salt) % 3) > 0
Force(s, k, c) == IF On(s, (c - 1) \div 3, k) THEN PV(s, 11, k, c) ELSE 0
SumF(s, k, i) == s.w * (Force(s, k, i) + Force(s, k, 3 + i) + Force(s, k, 6 + i) + Force(s, k, 9 + i))
Arm(s, k, e, i) == PV(s, 12, k, 3 * e + i) - PV(s, 13, k, i)
Crs(s, k, e, i) == LET j == (i % 3) + 1 m == (j % 3) + 1 IN Arm(s, k, e, j) * Force(s, k, 3 * e + m) - Arm(s, k, e, m) * Force(s, k, 3 * e + j)
SumM(s, k, i) == s.w * (Crs(s, k, 0, i) + Crs(s, k, 1, i) + Crs(s, k, 2, i) + Crs(s, k, 3, i))
\* name -> columns, value per step and column, scale
Sp(s, name) ==
  CASE name = "joints" -> [n |-> s.nj, f |-> 1, o |-> 7] [] name = "rates" -> [n |-> s.nj, f |-> 2, o |-> 6]
    [] name = "gpos" -> [n |-> 7 + s.nj, f |-> 1, o |-> 0] [] name = "gvel" -> [n |-> 6 + s.nj, f |-> 2, o |-> 0] [] name = "gacc" -> [n |-> 6 + s.nj, f |-> 3, o |-> 0]
    [] name = "com" -> [n |-> 3, f |-> 4, o |-> 0] [] name = "lmom" -> [n |-> 3, f |-> 5, o |-> 0] [] name = "amom" -> [n |-> 3, f |-> 6, o |-> 0]
    [] name = "pos" -> [n |-> 12, f |-> 7, o |-> 0] [] name = "vel" -> [n |-> 12, f |-> 8, o |-> 0]
    [] name = "posabs" -> [n |-> 12, f |-> 9, o |-> 0] [] name = "velabs" -> [n |-> 12, f |-> 10, o |-> 0]
    [] name = "quat" -> [n |-> 4, f |-> 1, o |-> 3] [] name = "baserate" -> [n |-> 3, f |-> 2, o |-> 3]
    [] name = "forces" -> [n |-> 12, f |-> 11, o |-> 0] [] name = "gains" -> [n |-> 108, f |-> 14, o |-> 0]
    [] name = "cforce" -> [n |-> 3, f |-> 21, o |-> 0] [] name = "cmoment" -> [n |-> 3, f |-> 22, o |-> 0]
Scaled(s, p, k, c) == CASE p.f = 11 -> 10000 * Force(s, k, c) [] p.f = 21 -> 100 * SumF(s, k, c) [] p.f = 22 -> 100 * SumM(s, k, c) [] OTHER -> 10000 * PV(s, p.f, k, p.o + c)
At(s, name, loc, c) == LET p == Sp(s, name) V(k) == Scaled(s, p, k, c) IN Val(loc, V)
Row(s, name, loc) == TLCEval([c \in 1..Sp(s, name).n |-> At(s, name, loc, c)])
T8(s) == [k \in 1..Len(s.T) |-> 8 * s.T[k]]
LocQ(s, t) == TLCEval(Locate(T8(s), t))
LocT(s, t) == TLCEval(Locate(s.T, t))
JudgeQuery(s, r) ==
  LET Ok(o) == \A j \in 1..(IF o.name = "gains" THEN 2 ELSE Len(s.ts)) : NearSeq(o.v[j], Row(s, o.name, LocQ(s, s.ts[j])), 3) IN
  [values |-> \A i \in 1..Len(r.out) : (r.out[i].name = "gains" \/ Len(r.out[i].v) = Len(s.ts)) /\ Ok(r.out[i]),
   complete |-> { r.out[i].name : i \in 1..Len(r.out) } = {"joints", "rates", "gpos", "gvel", "gacc", "com", "lmom", "amom", "pos", "vel", "posabs", "velabs", "quat", "baserate", "forces", "gains", "cforce", "cmoment"},
   failing |-> { r.out[i].name : i \in { i \in 1..Len(r.out) : ~Ok(r.out[i]) } } = {}]
\* ---- files: legs exchanged in pairs, or reversed
SwapLeg(c) == LET g == (c - 1) \div 3 IN 3 * (CASE g = 0 -> 1 [] g = 1 -> 0 [] g = 2 -> 3 [] OTHER -> 2) + ((c - 1) % 3) + 1
RevLeg(c) == 3 * (3 - (c - 1) \div 3) + ((c - 1) % 3) + 1
Padded(s, name, loc) == [c \in 1..24 |-> LET leg == (c - 1) \div 6 i == (c - 1) % 6 IN IF i >= 3 THEN 0 ELSE At(s, name, loc, SwapLeg(3 * leg + i + 1))]
ComVel(s, loc, c) == FxMul(FxDiv(981, 100 * s.w), At(s, "lmom", loc, c))
FlagOk(s, loc, leg, v) == LET z == At(s, "forces", loc, SwapLeg(3 * leg + 3)) p == Scaled(s, Sp(s, "forces"), loc.k, SwapLeg(3 * leg + 3)) IN
  /\ v \in {0, 10000} /\ (z > 2 => v = 10000) /\ (z < -2 => v = 0) /\ (z = 0 /\ loc.f = 0 => v = 0)
Rows(s, fl, W(_)) == Len(fl.rows) = Len(fl.ticks) /\ \A j \in 1..Len(fl.rows) : NearSeq(fl.rows[j], W(LocT(s, fl.ticks[j])), 4)
Plain(s, name) == [n |-> 1 + Sp(s, name).n, W |-> name]
FileOk(s, fl, n) ==
  LET f == fl.name
      Shape(c) == fl.shape = <<n, c>>
      Ticks == fl.skew = 0
      Named(name) == Shape(1 + Sp(s, name).n) /\ Ticks /\ Rows(s, fl, LAMBDA loc : Row(s, name, loc))
      Mapped(name, m(_)) == Shape(13) /\ Ticks /\ Rows(s, fl, LAMBDA loc : [c \in 1..12 |-> At(s, name, loc, m(c))])
  IN
  CASE s.kind = "old" ->
         (CASE f = "positions" -> Named("joints") [] f = "velocities" -> Named("rates")
            [] f = "forces" -> Shape(13) /\ Ticks /\ Rows(s, fl, LAMBDA loc : [c \in 1..12 |-> LET V(k) == 10000 * s.w * Force(s, k, c) IN Val(loc, V)])
            [] f = "generalized_positions" -> Named("gpos") [] f = "generalized_velocities" -> Named("gvel") [] f = "generalized_acceleration" -> Named("gacc")
            [] f = "com_old" -> Named("com") [] f = "lmom_old" -> Named("lmom") [] f = "amom_old" -> Named("amom") [] OTHER -> FALSE)
    [] s.kind = "qp" ->
         (CASE f = "positions" -> Named("joints") [] f = "velocities" -> Named("rates")
            [] f = "positions_eff" -> Shape(24) /\ Rows(s, fl, LAMBDA loc : Padded(s, "pos", loc))
            [] f = "velocities_eff" -> Shape(24) /\ Rows(s, fl, LAMBDA loc : Padded(s, "vel", loc))
            [] f = "com" -> Named("com") [] f = "com_vel" -> Shape(4) /\ Ticks /\ Rows(s, fl, LAMBDA loc : [c \in 1..3 |-> ComVel(s, loc, c)])
            [] f = "centroidal_forces" -> Named("cforce") [] f = "centroidal_moments" -> Named("cmoment")
            [] f = "quaternion" -> Named("quat") [] f = "base_ang_velocities" -> Named("baserate")
            [] f = "positions_abs" -> Mapped("posabs", SwapLeg) [] f = "velocities_abs" -> Mapped("velabs", SwapLeg)
            [] f = "contact_activation" -> Shape(5) /\ Ticks /\ \A j \in 1..Len(fl.rows) : \A leg \in 0..3 : FlagOk(s, LocT(s, fl.ticks[j]), leg, fl.rows[j][leg + 1])
            [] f = "gain_ratio" -> fl.shape[1] = n /\ Ticks
            [] OTHER -> FALSE)
    [] s.kind = "lqr" -> f = "positions_abs_with_horizon_part" /\ Mapped("posabs", RevLeg)
Want(s) == CASE s.kind = "old" -> {"positions", "velocities", "forces", "generalized_positions", "generalized_velocities", "generalized_acceleration", "com_old", "lmom_old", "amom_old"}
             [] s.kind = "qp" -> {"positions", "velocities", "positions_eff", "velocities_eff", "com", "com_vel", "centroidal_forces", "centroidal_moments", "quaternion", "base_ang_velocities", "positions_abs", "velocities_abs", "contact_activation", "gain_ratio"}
             [] OTHER -> {"positions_abs_with_horizon_part"}
JudgeFiles(s, r) ==
  LET last == s.T[Len(s.T)]  n == IF s.kind = "old" THEN last ELSE WholeSeconds(last)
      Bad == { r.files[i].name : i \in { i \in 1..Len(r.files) : ~FileOk(s, r.files[i], n) } }
  IN [written |-> { r.files[i].name : i \in 1..Len(r.files) } = Want(s)] @@ [x \in Bad |-> FALSE]
Judge(r) == CASE r.event = "query" -> JudgeQuery(r.s, r) [] r.event = "files" -> JudgeFiles(r.s, r) [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
