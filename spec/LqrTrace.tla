------------------------------ MODULE LqrTrace ------------------------------
(* Recorded runs of the iterative LQR solver: roll-outs, costs, the printed    *)
(* history as a run of LqrLoop, statuses, stored solutions (Part "loop");      *)
(* derivatives, gains and steps of the backward pass (Part "policy").          *)
EXTENDS Lqr, LqrLoop, TraceIO, FiniteSets
CONSTANT Part
VARIABLE l
MNum(M) == \A i \in 1..Len(M) : AllNum(M[i])
NearM(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearSeq(A[i], B[i], tol)
Lam(e) == IF e = Off THEN 0 ELSE IF e >= 0 THEN One * (2 ^ e) ELSE One \div (2 ^ (-e))
TenTo(k) == 10 ^ k
\* cost/8 as printed against computed
TolC == 60
\* what the run started from: control sequence us, and the first step length that does not diverge
Alpha(k) == 2 ^ (k * k)
Scaled(us, k) == TLCEval([t \in 1..Len(us) |-> [i \in 1..Len(us[t]) |-> TDiv(us[t][i], Alpha(k))]])
Clamped(p, us) == TLCEval([t \in 1..Len(us) |-> Clamp(p, us[t])])
Begin(p, x0, us) ==
  LET RECURSIVE G(_) G(k) == IF k = p.set.alphas THEN [ok |-> FALSE, x |-> <<>>, u |-> <<>>]
        ELSE LET v == Clamped(p, Scaled(us, k)) y == RollOut(p, x0, v) IN IF y.ok THEN [ok |-> TRUE, x |-> y.x, u |-> v] ELSE G(k + 1)
  IN TLCEval(G(0))
\* is some state of a roll-out too close to the divergence limit to tell
EdgeX(p, x) == \E t \in 1..Len(x) : \E i \in 1..p.nx : Abs(FxAbs(x[t][i]) - p.set.diverge * One) < 1000
\* the printed history through the loop's specification: the set of machine states it may be in
Fold(p, log) ==
  LET g == p.set
      Small(e) == LET tol == TenTo(9 - g.tolc) IN IF Abs(e.red - tol) <= 2 THEN {TRUE, FALSE} ELSE { e.red < tol }
      On(m, e) == CASE e.e = "chol" -> Fail(g, m)
                    [] e.e = "ok" -> IF e.it = m.it + 1 /\ e.lam = m.lam THEN UNION { Take(g, m, s) : s \in Small(e) } ELSE {}
                    [] e.e = "rej" -> { n \in Refuse(g, m) : n.it = e.it /\ n.lam = e.lam }
                    [] e.e = "stop" -> Stop(g, m, e.why)
                    [] e.e = "sum" -> IF m.ph = "done" THEN { m } ELSE {}
                    [] OTHER -> {}
      RECURSIVE G(_, _) G(i, M) == IF i > Len(log) \/ M = {} THEN M ELSE G(i + 1, UNION { On(m, log[i]) : m \in M })
  IN TLCEval(G(1, { Boot(g) }))
Idx(log, e) == { i \in 1..Len(log) : log[i].e = e }
JudgeLoop(p, o, b, us) ==
  LET T == p.T  t == o.t  log == o.log  g == p.set
      oks == Idx(log, "ok")  sums == Idx(log, "sum")  stops == Idx(log, "stop")
      why == IF stops = {} THEN "none" ELSE log[CHOOSE i \in stops : TRUE].why
      sizes == o.dims = <<T, p.nx, p.nu>> /\ t.nx = T + 1 /\ t.nu = T /\ o.used
      file == ~g.store \/ ~b.ok \/ (o.file.K = t.K /\ Has(o.file, "x") /\ o.file.x = t.x /\ o.file.u = t.u /\ o.file.dim = <<T, p.nx, p.nu>> /\ o.loaded = t.K)
  IN IF ~sizes THEN [sizes |-> FALSE]
     ELSE IF ~(\A k \in 1..(T + 1) : AllNum(t.x[k])) \/ ~(\A k \in 1..T : AllNum(t.u[k]) /\ MNum(t.K[k])) THEN [numbers |-> FALSE]
     ELSE IF ~b.ok THEN [diverged |-> why = "divergence" /\ Len(log) = 1 /\ NearM(t.u, us, 5)]
     ELSE IF ~(\A k \in 1..T : Tame(t.x[k], g.diverge + 1) /\ Tame(t.u[k], 6)) THEN [bounded |-> \A k \in 1..T : Tame(t.x[k], g.diverge + 1)]
     ELSE LET first == Total(p, b.x, b.u)  last == Total(p, t.x, t.u)
              \* cost before an accepted step
              RECURSIVE Chain(_, _)
              Chain(i, c) == IF i > Len(log) THEN TRUE
                ELSE IF log[i].e = "ok" THEN Near(log[i].cost, c, TolC) /\ Chain(i + 1, log[i].cost - log[i].redS)
                ELSE IF log[i].e = "sum" THEN Near(log[i].cost, c, TolC) /\ Chain(i + 1, c) ELSE Chain(i + 1, c)
          IN [start |-> \A i \in 1..p.nx : Near(t.x[1][i], b.x[1][i], 2),
              rollout |-> \A k \in 1..T : NearSeq(t.x[k + 1], Move(p, k, t.x[k], t.u[k]), 60),
              bounded |-> \A k \in 1..(T + 1) : \A i \in 1..p.nx : Abs(t.x[k][i]) <= g.diverge * One + 2,
              limits |-> g.lim => \A k \in 1..T : \A i \in 1..p.nu : t.u[k][i] >= g.lo[i] * 100000 /\ t.u[k][i] <= g.hi[i] * 100000,
              summary |-> Cardinality(sums) = 1 /\ \A i \in sums : Near(log[i].cost, last, TolC),
              improved |-> last <= first + TolC,
              chain |-> Chain(1, first),
              untouched |-> oks = {} => NearM(t.u, b.u, 5),
              accepts |-> \A i \in oks : log[i].red >= 0,
              \* without a policy nothing was tried and the number printed is an old one
              rejects |-> \A i \in Idx(log, "rej") : log[i].red <= 0 \/ (i > 1 /\ log[i - 1].e = "chol" /\ why = "regularisation"),
              history |-> Fold(p, log) # {},
              stopped |-> Cardinality(stops) = 1 /\ why # "divergence",
              gradient |-> /\ why = "gradient" => \A i \in sums : log[i].grad <= TenTo(9 - g.tolg)
                           /\ \A i \in oks : log[i].grad >= TenTo(9 - g.tolg) - 1,
              change |-> why = "cost" => oks # {} /\ log[SeqMax(SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : i \in oks))].red <= TenTo(9 - g.tolc) + 2,
              file |-> file]
\* derivatives: first to 1e-5, second of a cost to 2e-3
FirstOk(p, t, d) ==
  /\ \A k \in 1..p.T : LET J == DMove(p, k, t.x[k], t.u[k]) IN
       NearM(d[k].fx, SubM(J, 1, p.nx, 1, p.nx), 200) /\ NearM(d[k].fu, SubM(J, 1, p.nx, p.nx + 1, p.nx + p.nu), 200)
  /\ \A k \in 1..(p.T + 1) : LET gr == IF k > p.T THEN Grd(p.end, t.x[k]) \o VZero(p.nu) ELSE Grd(p.cost[k], t.x[k] \o t.u[k]) e == TLCEval([i \in 1..Len(gr) |-> 8 * gr[i]]) IN
       NearSeq(d[k].cx, Sub(e, 1, p.nx), 400) /\ NearSeq(d[k].cu, Sub(e, p.nx + 1, p.nx + p.nu), 400)
SecondOk(p, t, d) ==
  \A k \in 1..(p.T + 1) : LET n == p.nx + p.nu
      h0 == IF k > p.T THEN Hss(p.end, t.x[k]) ELSE Hss(p.cost[k], t.x[k] \o t.u[k])
      e == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i > Len(h0) \/ j > Len(h0) THEN 0 ELSE 8 * h0[i][j]]])
  IN NearM(d[k].cxx, SubM(e, 1, p.nx, 1, p.nx), 20000) /\ NearM(d[k].cxu, SubM(e, 1, p.nx, p.nx + 1, n), 20000) /\ NearM(d[k].cuu, SubM(e, p.nx + 1, n, p.nx + 1, n), 20000)
CurveOk(p, t, d) == p.rk \/ \A k \in 1..p.T :
  /\ \A a \in 1..p.nx : \A i \in 1..p.nx : \A c \in 1..p.nx : Near(d[k].fxx[a][i][c], DDInc(p, k, i, a, c), 5000)
  /\ \A a \in 1..p.nu : \A i \in 1..p.nx : \A c \in 1..p.nx : Near(d[k].fxu[a][i][c], DDInc(p, k, i, p.nx + a, c), 5000)
  /\ \A a \in 1..p.nu : \A i \in 1..p.nx : \A c \in 1..p.nu : Near(d[k].fuu[a][i][c], DDInc(p, k, i, p.nx + a, p.nx + c), 5000)
Mono(p) == \A t \in 1..p.T : p.dyn[t].n = <<>> /\ \A i \in 1..(p.nx + p.nu) : p.cost[t].f[i] = 0
Loose(p) == ~p.set.lim \/ \A i \in 1..p.nu : p.set.lo[i] <= -3000 /\ p.set.hi[i] >= 3000
JudgePolicy(p, o, b, us, K0) ==
  LET T == p.T  t == o.t  log == o.log  g == p.set
      good == /\ b.ok /\ t.nx = T + 1 /\ t.nu = T /\ o.dims = <<T, p.nx, p.nu>>
              /\ \A k \in 1..(T + 1) : AllNum(t.x[k]) /\ Tame(t.x[k], g.diverge)
              /\ \A k \in 1..T : AllNum(t.u[k]) /\ Tame(t.u[k], 6) /\ MNum(t.K[k])
      oks == Idx(log, "ok")  stops == Idx(log, "stop")
      final == IF Idx(log, "sum") = {} THEN [grad |-> -1] ELSE log[CHOOSE i \in Idx(log, "sum") : TRUE]
      why == IF stops = {} THEN "none" ELSE log[CHOOSE i \in stops : TRUE].why
      lastOk == CHOOSE i \in oks : \A j \in oks : j <= i
      one == Cardinality(oks) = 1
      \* regularisation at the end
      Ms == Fold(p, log)
  IN IF ~good THEN [returned |-> b.ok => \A k \in 1..T : AllNum(t.u[k])]
     ELSE LET at == IF one THEN b ELSE [x |-> t.x, u |-> t.u]
              pol == IF oks = {} \/ (~Mono(p) /\ ~one) THEN [fine |-> FALSE] ELSE Policy(p, at.x, at.u, TDiv(Lam(log[lastOk].lam), 8))
              \* the step computed at the start, and at the end
              p0 == IF log = <<>> \/ log[1].e # "ok" THEN [fine |-> FALSE] ELSE Policy(p, b.x, b.u, TDiv(Lam(log[1].lam), 8))
              pn == IF why # "gradient" \/ Cardinality(Ms) # 1 THEN [fine |-> FALSE] ELSE Policy(p, t.x, t.u, TDiv(Lam((CHOOSE m \in Ms : TRUE).lam), 8))
              rel0 == Rel(TLCEval([k \in 1..T |-> StepOf(p, p0.s, b.u, k)]), b.u)
              reln == Rel(TLCEval([k \in 1..T |-> StepOf(p, pn.s, t.u, k)]), t.u)
              slope == Slope(p, t.x, t.u)
              \* one step taken: a part of the feedforward and the feedback on what the new roll-out deviates
              Follows(k) == LET RECURSIVE F(_, _)
                                F(j, x) == IF j > T THEN TRUE
                                           ELSE LET u == Clamp(p, VA(VA(b.u[j], TLCEval([i \in 1..p.nu |-> TDiv(StepOf(p, pol.s, b.u, j)[i], Alpha(k))])), FxMatVec(t.K[j], VS(x, b.x[j]))))
                                                IN NearSeq(u, t.u[j], 20000) /\ F(j + 1, t.x[j + 1])
                            IN F(1, b.x[1])
          IN [first |-> FirstOk(p, t, o.d.t), second |-> SecondOk(p, t, o.d.t), curvature |-> CurveOk(p, t, o.d.t),
              nothing |-> oks = {} => t.K = K0,
              gains |-> pol.fine /\ Loose(p) => \A k \in 1..T : NearM(t.K[k], pol.s[k].L, 20000),
              step |-> p0.fine /\ IsNum(log[1].grad) => Near(log[1].grad \div 100, rel0, 4000 + rel0 \div 500),
              taken |-> one /\ pol.fine => \E k \in 0..(g.alphas - 1) : Follows(k),
              settled |-> pn.fine => reln <= TenTo(7 - g.tolg) + 300,
              stationary |-> pn.fine /\ Loose(p) /\ Mono(p) => \A k \in 1..T : \A i \in 1..p.nu : Abs(slope[k][i]) <= 20 * p.T * (TenTo(7 - g.tolg) + 300),
              \* with limits, one step taken: no feedback on what the step puts at a limit, that of the policy elsewhere
              saturated |-> g.lim /\ one /\ pol.fine =>
                \A k \in 1..T : LET d == VA(b.u[k], StepOf(p, pol.s, b.u, k)) IN \A i \in 1..p.nu :
                  /\ (d[i] >= g.hi[i] * 100000 - 1000 \/ d[i] <= g.lo[i] * 100000 + 1000) => \A j \in 1..p.nx : t.K[k][i][j] = 0
                  /\ (d[i] <= g.hi[i] * 100000 - 130000 /\ d[i] >= g.lo[i] * 100000 + 130000) => NearSeq(t.K[k][i], pol.s[k].L[i], 20000)]
Judge(rec) ==
  LET s == rec.s  n == Len(s.runs) IN
  IF rec.event # "lqr" THEN [ran |-> FALSE]
  ELSE IF \E k \in 1..Len(rec.runs) : rec.runs[k].threw THEN [returned |-> FALSE]
  ELSE IF Len(rec.runs) # n THEN [runs |-> FALSE]
  ELSE LET RECURSIVE J(_)
           J(k) == LET run == s.runs[k]  p == s.probs[run.p]
                       us == IF run.init THEN TLCEval([t \in 1..p.T |-> Cm(p.u0[t])]) ELSE rec.runs[k - 1].t.u
                       K0 == IF run.init THEN [t \in 1..p.T |-> ZeroM(p.nu, p.nx)] ELSE rec.runs[k - 1].t.K
                       b == Begin(p, Cm(p.x0), us)
                       far == b.ok /\ EdgeX(p, b.x)
                   IN IF far THEN [skipped |-> TRUE] ELSE IF Part = "loop" THEN JudgeLoop(p, rec.runs[k], b, us) ELSE JudgePolicy(p, rec.runs[k], b, us, K0)
           Js == TLCEval([k \in 1..n |-> TLCEval(J(k))])
           names == UNION { DOMAIN Js[k] : k \in 1..n }
       IN [nm \in names |-> \A k \in 1..n : nm \in DOMAIN Js[k] => Js[k][nm]]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
