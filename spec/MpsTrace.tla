------------------------------ MODULE MpsTrace ------------------------------
(***************************************************************************)
(* Checks executions recorded from the implementation against Mps.tla.     *)
(*                                                                         *)
(* The trace file holds many scenarios; Init picks one.  Every action      *)
(* consumes one event: it applies the stage of the specification that the  *)
(* event ends to the model state, collects in `bad' every promise that the *)
(* recorded state breaks, and continues from the recorded state (so each   *)
(* stage is judged from what the implementation really had).  An event     *)
(* that the specification does not allow at that point has no action: TLC  *)
(* reports it as a deadlock.                                               *)
(***************************************************************************)
EXTENDS Mps, Json, IOUtils

CONSTANTS Props      \* the properties to decide

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
Last == Len(Trace)
(* Scenarios are consecutive and numbered by .k *)
Firsts == {i \in 1..Last : i = 1 \/ Trace[i].k # Trace[i - 1].k}

VARIABLES l,      \* next event
          ws,     \* the simulations (a function from their numbers)
          bad,    \* broken promises
          cnt     \* what has been checked
vars == <<l, ws, bad, cnt>>

TOL == RLit("1e-11")
TINY == RLit("1e-13")
(* a virtual particle has a position, which rounding spoils the more the farther away from the origin it is *)
TolAt(w, i) == IF w.O.spp THEN RAdd(TOL, RMul(RLit("5e-14"), RDiv(VNorm(w.s.x[i]), w.E.l0))) ELSE TOL

Put(f, c, v) == [d \in DOMAIN f \cup {c} |-> IF d = c THEN v ELSE f[d]]
Same(a, b) == RClose(a, b, R0, R0)
SameV(a, b) == VClose(a, b, R0, R0)
Range(q) == {q[i] : i \in DOMAIN q}

(* Violations of the promises PS for the subjects in S. *)
Chk(PS, what, S) == IF PS \cap Props = {} THEN {} ELSE {<<p, what, i>> : p \in PS \cap Props, i \in S}
One(cond) == IF cond THEN {} ELSE {0}

----------------------------------------------------------------------------
(* Parameters of a simulation *)

Opt(e) == e.opts
NewWorld(e) ==
    [ O |-> [spp |-> e.opts.spp, hs |-> e.opts.hs, hl |-> e.opts.hl, ecs |-> e.opts.ecs, ds |-> e.opts.ds,
             gc |-> e.opts.gc, expl |-> e.opts.expl, central |-> e.opts.central, dim |-> e.opts.dim],
      E |-> e.env @@ [eps |-> e.raw.eps],
      q |-> e.raw, exact |-> e.exact, hooks |-> e.hooks,
      focus |-> Range(e.opts.focus),   \* particles to judge (all, if empty)
      ph |-> "idle", auto |-> TRUE, want |-> R0, w0 |-> <<>>, dead |-> FALSE,
      A |-> <<>>, b |-> <<>>, g0 |-> <<>>, sol |-> <<>>, pre |-> <<>>,
      sched |-> e.sched,    \* a twin that differs in its threads only
      rel |-> e.rel,        \* <<>>, or how it is an image of the other's
      boost |-> e.boost, label |-> e.labels,
      from |-> -1,          \* the simulation whose particles this one was given
      s0 |-> <<>>,          \* the visible state at the beginning of the last step, if any
      fail |-> "",
      s |-> Visible(<<>>, <<>>, <<>>, <<>>, <<>>, R0, R0) ]
Foc(w) == IF w.focus = {} THEN Ids(w.s) ELSE w.focus \cap Ids(w.s)
FocFluid(w) == {i \in Foc(w) : w.s.ty[i] = Fluid}
All(w) == w.focus = {}

(* The environment the code derives from the parameters (P16). *)
RelEq(a, b) == RClose(a, b, RLit("1e-12"), RMax(RAbs(a), RAbs(b)))
EnvBad(w, e) ==
    LET m == EnvOf(w.O, w.q)
        c == e.env
    IN Chk({"P16"}, "influence radius", One(RelEq(c.re, m.re)))
       \cup Chk({"P16"}, "neighbour distance", One(RelEq(c.nl, m.nl)))
       \cup Chk({"P16"}, "travel limit", One(RelEq(c.maxdx, m.maxdx)))
       \cup Chk({"P16", "P04"}, "maximum time step", One(RelEq(c.maxdt, m.maxdt)))
       \cup Chk({"P16"}, "gravity", One(SameV(c.g, m.g)))
       \cup Chk({"P16"}, "spacing", One(Same(c.l0, m.l0)))
       \cup Chk({"P16"}, "density", One(Same(c.rho, m.rho)))
       \cup Chk({"P16"}, "viscosity", One(Same(c.nu, m.nu)))
       \cup Chk({"P16"}, "minimum corner", One(SameV(c.min, m.min)))
       \cup Chk({"P16"}, "maximum corner", One(SameV(c.max, m.max)))
       \cup Chk({"P16"}, "reference density", One(RClose(c.n0, m.n0, RLit("1e-10"), m.n0)))
       \cup Chk({"P16", "P26"}, "lambda", One(w.O.hl \/ RClose(c.lam, m.lam, RLit("1e-10"), m.lam)))
       \cup Chk({"P16", "P26"}, "surface ratio", One(w.O.spp \/ Same(c.sr, m.sr)))
       \cup Chk({"P16", "P26"}, "speed of sound", One(~w.O.expl \/ Same(c.c, m.c)))
       \cup Chk({"P04"}, "clock at start", One(Same(c.t, R0)))

----------------------------------------------------------------------------
(* Where a comparison cannot be decided because the numbers are too close.  In exact simulations the numbers are such that *)
(* nothing is rounded up to the pressure equation of the first step.                                                       *)

Near(a, b, rel) == RLe(RAbs(RSub(a, b)), RMul(rel, RMax(RAbs(a), RAbs(b))))
AmbReach(w, P, i) == ~w.exact /\ \E j \in w.s.nbr[i] : Near(Dist(w.s, i, j), w.E.re, RLit("1e-11"))
AmbDeficit(w, i) == w.O.spp /\ Near(w.s.raw[i], w.E.n0, RLit("1e-9"))
AmbSurfaceI(w, i) == ~w.O.spp /\ Near(RDiv(w.s.n[i], w.E.n0), w.E.sr, RLit("1e-10"))
AmbSurface(w, i) == ~w.O.spp /\ \E j \in w.s.nbr[i] \cup {i} : AmbSurfaceI(w, j)
(* direction of the virtual particle *)
AmbDirection(w, P, i) == w.O.spp /\ RLt(w.s.raw[i], w.E.n0) /\ DOMAIN P[i] # {} /\
    LET c == Centre(w.O, w.E, P, i) IN RLe(VNorm(c.v), RMax(RMul(RLit("1e-6"), c.m), RMul(RInt(10), Epsilon)))
AmbDirection0(w, P, i) == w.O.spp /\ RLt(w.s.raw[i], w.E.n0) /\ DOMAIN P[i] # {} /\
    LET c == Centre(w.O, w.E, P, i) IN RLe(VNorm(c.v), RMax(RMul(RLit("1e-12"), c.m), RMul(RInt(10), Epsilon)))
(* condition of the correction matrix *)
AmbMatrix(w, P, i) == w.O.gc /\
    LET M == DirMatrix(w.O, w.E, w.s, P, i)
        d == Det(w.O, M)
        tr == RSum([a \in 1..w.O.dim |-> M[a][a]])
        trD == IF w.O.dim = 2 THEN RMul(tr, tr) ELSE RMul(tr, RMul(tr, tr))
    IN ~(\E a \in 1..w.O.dim : REq(M[a][a], R0)) /\ RLe(RAbs(d), RMul(RLit("1e-5"), trD))  \* a zero row: singular for sure

----------------------------------------------------------------------------
(* Common to all events within a step: nothing but the stage's own results changes. *)

Cols(s, e) == [s EXCEPT !.ty = e.ty, !.x = e.x, !.u = e.u, !.p = e.p, !.n = e.n, !.t = e.t, !.dt = e.dt]

Shape(s, e) == Len(e.ty) = Len(s.ty) /\ Len(e.x) = Len(s.ty)
Frozen(s, e, i) == SameV(s.x[i], e.x[i]) /\ SameV(s.u[i], e.u[i]) /\ Same(s.p[i], e.p[i]) /\ Same(s.n[i], e.n[i])

FrameBad(w, e, may) == \* may: the columns the stage may change
    LET s == w.s IN
    Chk({"P02", "P03", "P25"}, "type changed", {i \in Ids(s) : "ty" \notin may /\ e.ty[i] # s.ty[i]})
    \cup Chk({"P03", "P25"}, "type changed to something else than disabled", {i \in Ids(s) : e.ty[i] # s.ty[i] /\ e.ty[i] # Disabled})
    \cup Chk({"P02"}, "disabled particle enabled", {i \in Ids(s) : s.ty[i] = Disabled /\ e.ty[i] # Disabled})
    \cup Chk({"P02", "P25"}, "disabled particle changed", {i \in Ids(s) : s.ty[i] = Disabled /\ ~Frozen(s, e, i)})
    \cup Chk({"P25"}, "position changed", {i \in Ids(s) : "x" \notin may /\ ~SameV(s.x[i], e.x[i])})
    \cup Chk({"P25"}, "velocity changed", {i \in Ids(s) : "u" \notin may /\ ~SameV(s.u[i], e.u[i])})
    \cup Chk({"P25", "P10"}, "pressure changed", {i \in Ids(s) : "p" \notin may /\ ~Same(s.p[i], e.p[i])})
    \cup Chk({"P25", "P05"}, "density changed", {i \in Ids(s) : "n" \notin may /\ ~Same(s.n[i], e.n[i])})
    \cup Chk({"P04", "P25"}, "clock changed", One("t" \in may \/ (Same(e.t, s.t) /\ Same(e.dt, s.dt))))

StillWall(w, e) == Chk({"P07", "P25"}, "wall or dummy moved",
    {i \in Ids(w.s) : w.s.ty[i] \in {Wall, Dummy} /\ ~(SameV(w.s.x[i], e.x[i]) /\ SameV(w.s.u[i], e.u[i]))})

----------------------------------------------------------------------------
(* The time step and the search. *)

DtBad(w, e) ==
    LET s == w.s
        want == IF w.auto THEN AutoDt(w.E, s) ELSE w.want
    IN Chk({"P04", "P25", "P26"}, "time step", One(IF w.auto THEN RelEq(e.dt, want) ELSE Same(e.dt, want)))
       \cup Chk({"P02"}, "time step influenced by a disabled particle", One(~w.auto \/ (\A i \in Ids(s) : IsOn(s, i)) \/ RelEq(e.dt, want)))
       \cup Chk({"P04", "P25", "P26"}, "clock", One(RClose(e.t, RAdd(s.t, e.dt), RLit("1e-15"), e.t)))

AmbInside(w, i) == ~w.exact /\ \E a \in 1..w.O.dim :
    LET d == RSub(w.s.x[i][a], w.E.min[a])
        up == RMul(RInt(Blocks(w.E, a)), w.E.nl)
    IN (~REq(d, R0) /\ RLe(RAbs(d), RMul(TINY, w.E.nl))) \/ RLe(RAbs(RSub(d, up)), RMul(TINY, up))

SearchBad(w, e) ==
    LET s == w.s
        d == Disable(w.O, w.E, s)
        t == Cols(s, e)
        lo == IF w.exact THEN w.E.nl ELSE RMul(w.E.nl, RSub(R1, RLit("1e-12")))
        hi == IF w.exact THEN w.E.nl ELSE RMul(w.E.nl, RAdd(R1, RLit("1e-12")))
    IN FrameBad(w, e, {"ty", "t"}) \cup DtBad(w, e)
       \cup Chk({"P02", "P25", "P26"}, "wrongly disabled or not disabled", {i \in Ids(s) : e.ty[i] # d.ty[i] /\ ~AmbInside(w, i)})
       \cup Chk({"P01", "P26"}, "neighbour missing", {i \in Foc(w) : IsOn(t, i) /\ ~(NeighborsOf(w.E, t, i, lo) \subseteq Range(e.nbr[i]))})
       \cup Chk({"P01", "P26"}, "not a neighbour", {i \in Foc(w) : IsOn(t, i) /\ ~(Range(e.nbr[i]) \subseteq NeighborsOf(w.E, t, i, hi))})
       \cup Chk({"P01", "P26"}, "neighbour listed twice", {i \in Foc(w) : IsOn(t, i) /\ Cardinality(Range(e.nbr[i])) # Len(e.nbr[i])})
       \cup Chk({"P02"}, "disabled neighbour", {i \in Foc(w) : IsOn(t, i) /\ \E j \in Range(e.nbr[i]) : j \in Ids(s) /\ ~IsOn(t, j)})
       \cup Chk({"P15", "P23"}, "overfull block accepted", One(~Overfull(w.O, w.E, d)))

AfterSearch(w, e) ==
    LET t == Cols(w.s, e)
    IN [w EXCEPT !.s = [t EXCEPT !.nbr = TLCEval([i \in Foc(w) |-> NeighborsOf(w.E, t, i, w.E.nl)])]]

----------------------------------------------------------------------------
(* Densities. *)

DensityBad(w, m, e) == \* m: the model's state after the stage
    FrameBad(w, e, {"n"})
    \cup Chk({"P05", "P25", "P26"}, "density",
             {i \in Foc(w) : Bears(w.s, i) /\ ~RClose(e.n[i], m.n[i], TolAt(w, i), RMax(w.E.n0, m.n[i]))})
    \cup Chk({"P05", "P25", "P26"}, "density below the reference", {i \in Ids(w.s) : Bears(w.s, i) /\ w.O.spp /\ RLt(e.n[i], w.E.n0)})
    \cup Chk({"P05"}, "density of a dummy or disabled particle changed", {i \in Ids(w.s) : ~Bears(w.s, i) /\ ~Same(e.n[i], w.s.n[i])})

----------------------------------------------------------------------------
(* Explicit stage. *)

WallFactor(w, i) == RInt((IF w.label = <<>> THEN i - 1 ELSE w.label[i]) % 3)
WallPos(w, s, i) ==
    LET t == RAdd(s.t, w.q.offset)
    IN VAdd(VAdd(w.w0[i], VScale(WallFactor(w, i), VAdd(VAdd(VScale(t, w.q.wv), VScale(RMul(t, t), w.q.wq)), VScale(s.dt, w.q.wd)))), VScale(s.t, w.boost))
WallsAt(w, s) == TLCEval([i \in Ids(s) |-> WallPos(w, s, i)])

PosTol(s, i, dt, u) == RMul(TINY, RAdd(VNorm(s.x[i]), RMul(dt, VNorm(u))))

WallBad(w, s, e) == \* s: state before, with the clock already advanced
    LET walls == {i \in Ids(s) : s.ty[i] \in {Wall, Dummy}}
        W0 == WallsAt(w, s)
    IN Chk({"P07", "P25", "P26"}, "wall position", {i \in walls : ~VClose(e.x[i], W0[i], RLit("1e-15"), RAdd(VNorm(W0[i]), VNorm(w.w0[i])))})
       \cup Chk({"P07", "P25", "P26"}, "wall velocity",
             {i \in walls : ~VClose(e.u[i], VScale(RDiv(R1, s.dt), VSub(W0[i], s.x[i])), TINY, RDiv(RAdd(VNorm(W0[i]), VNorm(s.x[i])), s.dt))})
CallsBad(w, s, e) ==
    LET walls == {i \in Ids(s) : s.ty[i] \in {Wall, Dummy}}
    IN Chk({"P07"}, "preparation function called once with time and time step",
           One(Len(e.pre) = 1 /\ Same(e.pre[1][1], s.t) /\ Same(e.pre[1][2], s.dt)))
       \cup Chk({"P07"}, "wall position requested before the preparation", One(~e.early))
       \cup Chk({"P07"}, "wall position requested with other times", {c[1] : c \in {c \in Range(e.calls) : ~(Same(c[2], s.t) /\ Same(c[3], s.dt))}})
       \cup Chk({"P07"}, "wall position not requested", walls \ {c[1] : c \in Range(e.calls)})

ExplicitBad(w, e) ==
    LET s == w.s
        P == PairsIn(w.E, s, Foc(w))
        F == {i \in FocFluid(w) : w.O.hl => ~AmbReach(w, P, i)}
        acc == TLCEval([i \in FocFluid(w) |-> Accel(w.O, w.E, s, P, i)])
        exact == TLCEval([i \in FocFluid(w) |-> VAdd(s.u[i], VScale(s.dt, acc[i].v))])
        scale == TLCEval([i \in FocFluid(w) |-> RAdd(VNorm(s.u[i]), RMul(s.dt, acc[i].m))])
        wallVisc(i) == VSum(ZeroV(w.O), [j \in {j \in NonDummy(s, P, i) : s.ty[j] = Wall} |-> Visc(w.O, w.E, s, P, i, j)])
        got == VSum(ZeroV(w.O), [i \in FluidIds(s) |-> VSub(e.u[i], s.u[i])])
        due == VScale(s.dt, VSum(ZeroV(w.O), [i \in FluidIds(s) |-> VAdd(Gravity(w.O, w.E, s, i), wallVisc(i))]))
    IN FrameBad(w, e, {"x", "u"})
       \cup Chk({"P06", "P25", "P26"}, "predicted velocity", {i \in F : ~VClose(e.u[i], exact[i], TOL, scale[i])})
       \cup Chk({"P06", "P25", "P26"}, "predicted position",
                {i \in FluidIds(s) : ~VClose(e.x[i], VAdd(s.x[i], VScale(s.dt, e.u[i])), R1, PosTol(s, i, s.dt, e.u[i]))})
       \cup WallBad(w, s, e) \cup CallsBad(w, s, e)
       \cup Chk({"P22"}, "viscosity changes the total momentum of the fluid",
                One(~All(w) \/ F # FluidIds(s) \/ VClose(got, due, TOL, RSum(scale))))

----------------------------------------------------------------------------
(* Pressure equation. *)

RowOf(e, i) == [j \in {c[1] : c \in {c \in Range(e.rows[i]) : ~REq(c[2], R0)}} |->
                   (CHOOSE c \in Range(e.rows[i]) : c[1] = j)[2]]

AssembledBad(w, e) ==
    LET s == w.s
        P == PairsIn(w.E, s, Foc(w))
        R == TLCEval([i \in Foc(w) |-> RowOf(e, i)])
        off == TLCEval([i \in Foc(w) |-> LET f == OffDiag(w.O, w.E, s, P, i) IN [j \in {j \in DOMAIN f : ~REq(f[j], R0)} |-> f[j]]])
        diag == TLCEval([i \in Foc(w) |-> Diag(w.O, w.E, s, P, i)])
        rhs == TLCEval([i \in Foc(w) |-> Rhs(w.O, w.E, s, P, i)])
        ok == {i \in Foc(w) : ~Bears(s, i) \/ ~((w.O.hl /\ AmbReach(w, P, i)) \/ AmbSurface(w, i))}
        okD == {i \in ok : ~Bears(s, i) \/ ~(AmbDeficit(w, i) \/ AmbDirection0(w, P, i))}
        okB == {i \in okD : ~(w.O.hs /\ AmbReach(w, P, i)) /\ i \notin w.ambEcs}
        bearing == {i \in Foc(w) : HasEq(w.O, w.E, s, i)}
        sizes == Len(e.rows) = Len(s.ty) /\ Len(e.b) = Len(s.ty) /\ Len(e.sol) = Len(s.ty)
        PS == {"P08", "P25", "P26"}
    IN FrameBad(w, e, {})
       \cup (IF ~sizes THEN Chk(PS, "size of the system", {0}) ELSE
             Chk(PS, "coupled with wrong particles", {i \in ok : DOMAIN R[i] \ {i} # DOMAIN off[i]})
             \cup Chk(PS, "coefficient", {i \in ok : \E j \in DOMAIN off[i] \cap DOMAIN R[i] : ~RelEq(R[i][j], off[i][j])})
             \cup Chk(PS, "diagonal", {i \in okD : ~((i \in DOMAIN R[i] /\ RClose(R[i][i], diag[i], TolAt(w, i), RAbs(diag[i]))) \/ (i \notin DOMAIN R[i] /\ REq(diag[i], R0)))})
             \cup Chk(PS, "right-hand side", {i \in okB : ~RClose(e.b[i], rhs[i].v, TolAt(w, i), rhs[i].m)})
             \cup Chk(PS, "initial guess", {i \in Foc(w) : ~AmbSurface(w, i) /\ ~Same(e.sol[i], Guess(w.O, w.E, s, i))})
             \cup Chk({"P08"}, "not symmetric", {i \in ok \cap bearing : \E j \in (DOMAIN R[i] \cap bearing) : j > i /\ j \in ok /\ ~(i \in DOMAIN R[j] /\ RelEq(R[i][j], R[j][i]))}))

AfterAssembled(w, e) ==
    [w EXCEPT !.s = Cols(w.s, e), !.A = TLCEval([i \in DOMAIN e.rows |-> RowOf(e, i)]), !.b = e.b, !.g0 = e.sol]

ResidualOf(w, x) == TLCEval([i \in DOMAIN w.b |-> RSub(w.b[i], RSum([j \in DOMAIN w.A[i] |-> RMul(w.A[i][j], x[j])]))])
Norm(v) == RSqrt(RSum([i \in DOMAIN v |-> RMul(v[i], v[i])]))
AbsProd(w, x) == RSqrt(RSum([i \in DOMAIN w.b |-> LET v == RAdd(RAbs(w.b[i]), RSum([j \in DOMAIN w.A[i] |-> RAbs(RMul(w.A[i][j], x[j]))])) IN RMul(v, v)]))

SolveBad(w, e) ==
    LET r0 == Norm(ResidualOf(w, w.g0))
        r  == Norm(ResidualOf(w, e.sol))
        done == REq(RMul(RMul(r0, r0), RMul(w.E.eps, w.E.eps)), R0)  \* nothing to do: zero, or too small to be squared
        slack == RMul(RLit("1e-12"), RAdd(AbsProd(w, e.sol), AbsProd(w, w.g0)))
    IN FrameBad(w, e, {})
       \cup Chk({"P09", "P25"}, "solution not finite", {i \in DOMAIN e.sol : ~RFinite(e.sol[i])})
       \cup Chk({"P09", "P25"}, "residual above the tolerance", One(done \/ RLe(r, RAdd(RMul(RMul(w.E.eps, RLit("1.001")), r0), slack))))
       \cup Chk({"P09"}, "converged guess changed", One(~done \/ (\A i \in DOMAIN e.sol : Same(e.sol[i], w.g0[i]))))

PressureBad(w, e) ==
    LET s == w.s
        B == {i \in Ids(s) : Bears(s, i) /\ ~AmbSurfaceI(w, i)}
        m == IF w.O.expl THEN Eos(w.O, w.E, s) ELSE Clip(w.O, w.E, s, w.sol)
    IN FrameBad(w, e, {"p"})
       \cup (IF w.O.expl
             THEN Chk({"P10", "P25", "P26"}, "pressure from the equation of state",
                      {i \in {i \in Ids(s) : Bears(s, i)} : ~RClose(e.p[i], m.p[i], RLit("1e-10"), RMul(RMul(w.E.c, w.E.c), RMul(w.E.rho, RDiv(s.n[i], w.E.n0))))})
             ELSE Chk({"P10", "P25", "P26"}, "pressure is not the solution cut at zero", {i \in B : ~Same(e.p[i], m.p[i])})
                  \cup Chk({"P10"}, "pressure of a dummy or disabled particle changed", {i \in Ids(s) : ~Bears(s, i) /\ ~Same(e.p[i], s.p[i])}))
       \cup Chk({"P10", "P26"}, "negative pressure", {i \in Ids(s) : Bears(s, i) /\ RLt(e.p[i], R0)})

----------------------------------------------------------------------------
(* Pressure gradient and repulsion. *)

MovedBad(PS, s, e, what, F, D, tol, scale) == \* D[i]: velocity change due to each fluid particle, with scale
    Chk(PS, what, {i \in F : ~VClose(VSub(e.u[i], s.u[i]), D[i], R1, RAdd(RMul(tol, scale[i]), RMul(TINY, RAdd(VNorm(s.u[i]), VNorm(e.u[i])))))})
    \cup Chk(PS, "position does not follow the velocity correction",
         {i \in FluidIds(s) : ~VClose(VSub(e.x[i], s.x[i]), VScale(s.dt, VSub(e.u[i], s.u[i])), R1,
              RMul(RLit("1e-14"), RAdd(VNorm(s.x[i]), RMul(s.dt, RAdd(VNorm(s.u[i]), VNorm(e.u[i]))))))})

GradientBad(w, e) ==
    LET s == w.s
        P == PairsIn(w.E, s, Foc(w))
        F == {i \in FocFluid(w) : ~AmbDirection(w, P, i) /\ ~AmbMatrix(w, P, i)}
        D == TLCEval([i \in FocFluid(w) |-> LET f == PressureDu(w.O, w.E, s, P, i) IN [f EXCEPT !.m = RMul(@, RDiv(TolAt(w, i), TOL))]])
        from(i, K) == LET Q == Pushers(w.O, w.E, s, P, i) IN VSum(ZeroV(w.O), [j \in DOMAIN Q \cap K |-> Push(w.O, w.E, s, Q[j], i)])
        others == {j \in Ids(s) : s.ty[j] # Fluid} \cup {0}
        got == VSum(ZeroV(w.O), [i \in FluidIds(s) |-> VSub(e.u[i], s.u[i])])
        due == VSum(ZeroV(w.O), [i \in FluidIds(s) |-> from(i, others)])
    IN FrameBad(w, e, {"x", "u"}) \cup StillWall(w, e)
       \cup MovedBad({"P11", "P25", "P26"} \cup (IF w.O.gc THEN {"P24"} ELSE {}), s, e, "pressure gradient", F, [i \in FocFluid(w) |-> D[i].v],
                     IF w.O.gc THEN RLit("1e-8") ELSE TOL, [i \in FocFluid(w) |-> D[i].m])
       \cup Chk({"P22"}, "pressure changes the total momentum of the fluid",
                One(w.O.gc \/ ~All(w) \/ F # FluidIds(s) \/ VClose(got, due, TOL, RSum([i \in FluidIds(s) |-> RAdd(D[i].m, RMul(RLit("1e-2"), RAdd(VNorm(s.u[i]), VNorm(e.u[i]))))]))))

RepulsionBad(w, e) ==
    LET s == w.s
        P == PairsIn(w.E, s, Foc(w))
        D == TLCEval([i \in FocFluid(w) |-> IF w.O.ds THEN RepulseDu(w.O, w.E, s, P, i) ELSE [v |-> ZeroV(w.O), m |-> R0]])
        due == VSum(ZeroV(w.O), [i \in FluidIds(s) |-> IF ~w.O.ds THEN ZeroV(w.O) ELSE
                    VSum(ZeroV(w.O), [j \in {j \in TooClose(w.E, s, P, i) : s.ty[j] # Fluid} |-> Repulse(w.O, w.E, s, P, i, j)])])
        got == VSum(ZeroV(w.O), [i \in FluidIds(s) |-> VSub(e.u[i], s.u[i])])
    IN FrameBad(w, e, {"x", "u"}) \cup StillWall(w, e)
       \cup MovedBad({"P12", "P25", "P26"}, s, e, "repulsion", FocFluid(w), [i \in FocFluid(w) |-> D[i].v], RLit("1e-10"), [i \in FocFluid(w) |-> D[i].m])
       \cup Chk({"P12", "P25"}, "moved without a particle that is too close",
                {i \in FocFluid(w) : (~w.O.ds \/ {j \in NonDummy(s, P, i) : RLt(P[i][j].r, RMul(SafeDist(w.E), RAdd(R1, RLit("1e-9"))))} = {})
                                     /\ ~(SameV(e.u[i], s.u[i]) /\ SameV(e.x[i], s.x[i]))})
       \cup Chk({"P22"}, "repulsion changes the total momentum of the fluid",
                One(~All(w) \/ VClose(got, due, RLit("1e-10"), RSum([i \in FluidIds(s) |-> RAdd(D[i].m, RAdd(VNorm(s.u[i]), VNorm(e.u[i])))]))))

----------------------------------------------------------------------------
(* A whole step judged from the visible states alone. *)

(* The solver leaves an error in the pressure.  Minus the matrix of the pressure equation is an M-matrix, so the *)
(* largest component of the solution for the right-hand side -1 (1 in identity rows) is the norm of its inverse.  *)
InverseNorm(w, s4, sys) ==
    LET y == TLCEval(RSolve(Solvable(sys), [j \in DOMAIN sys.b |-> IF HasEq(w.O, w.E, s4, j) /\ ~Free(sys, j) THEN RInt(-1) ELSE R1]))
    IN IF \A i \in DOMAIN y : RFinite(y[i]) THEN RMaxOf([i \in DOMAIN y |-> RAbs(y[i])]) ELSE RLit("Infinity")
Stiffness(sys) == RMaxOf([i \in DOMAIN sys.b |-> RAbs(sys.A[i][i])])
SolverError(w, s4, sys, inv) ==
    LET n == Len(s4.ty)
        r0 == Norm(TLCEval([i \in 1..n |-> RSub(sys.b[i], RSum([j \in DOMAIN sys.A[i] |-> RMul(sys.A[i][j], Guess(w.O, w.E, s4, j))]))]))
        floor == RMul(RLit("1e-12"), RMaxOf([i \in 1..n |-> RMul(RAbs(sys.A[i][i]), RMaxOf([j \in 1..n |-> RAbs(Guess(w.O, w.E, s4, j))]))]))
        tiny == RLit("1e-140")   \* squares of smaller residuals underflow
    IN RMul(inv, RAdd(tiny, RAdd(RMul(RMul(w.E.eps, RLit("1.01")), r0), floor)))
(* how much an error of the pressures changes the velocity of i *)
Gain(O, E, s, P, i) ==
    LET Q == Pushers(O, E, s, P, i)
        C == IF O.gc THEN Corrective(O, E, s, P, i) ELSE <<>>
        sum == RSum([j \in DOMAIN Q |-> RMul(RDiv(W(E.re, Q[j].r), RMul(Q[j].r, Q[j].r)), IF O.gc THEN VNorm(MatVec(C, Q[j].dx)) ELSE Q[j].r)])
        k == IF O.gc THEN RDiv(RMul(s.dt, s.n[i]), RMul(E.rho, E.n0)) ELSE RDiv(RMul(s.dt, RInt(O.dim)), RMul(E.rho, E.n0))
    IN RMul(RMul(RInt(2), k), sum)

StepTol == RLit("1e-8")
(* What a step of length e.dt from the visible state s leads to, and how far rounding and the solver's tolerance may *)
(* take the implementation away from it; ~clear: something within the step cannot be decided for rounding.          *)
StepOf(w, s, dt) ==
    LET s4 == Predict(w.O, w.E, s, dt, WallsAt(w, SetDt(s, dt)))
        P4 == Pairs(w.E, s4)
        w4 == [w EXCEPT !.s = s4]
        w0 == [w EXCEPT !.s = s]
        unclear ==
            \/ \E i \in Ids(s) : IsOn(s, i) /\ AmbInside(w0, i)
            \/ \E i \in Ids(s) : Bears(s4, i) /\ (AmbDeficit(w4, i) \/ AmbSurfaceI(w4, i) \/ AmbDirection(w4, P4, i) \/ AmbMatrix(w4, P4, i)
                                                 \/ (~w.exact /\ \E j \in s4.nbr[i] : Near(Dist(s4, i, j), w.E.re, RLit("1e-10")) \/ Near(Dist(s, i, j), w.E.re, RLit("1e-10"))))
        sys == System(w.O, w.E, s4)
        inv == IF w.O.expl THEN R0 ELSE InverseNorm(w, s4, sys)
        singular == ~w.O.expl /\ ~RLt(RMul(inv, Stiffness(sys)), RLit("1e7"))
        s5 == PressureStage(w.O, w.E, s4)
        perr == IF w.O.expl THEN R0 ELSE SolverError(w, s4, sys, inv)
        s6 == Gradient(w.O, w.E, s5)
        m == Repulsion(w.O, w.E, s6)
        F == FluidIds(m)
        gain == RMaxOf([i \in F |-> Gain(w.O, w.E, s5, P4, i)])
        du == RMaxOf([i \in F |-> RAdd(VNorm(VSub(m.u[i], s.u[i])), RAdd(VNorm(VSub(s6.u[i], s5.u[i])), VNorm(VSub(m.u[i], s6.u[i]))))])
        pm == RMaxOf([i \in Ids(m) |-> RAbs(m.p[i])])
        cond == IF w.O.expl THEN R1 ELSE RMul(inv, Stiffness(sys))
    IN IF s.ty = <<>> THEN [clear |-> TRUE, m |-> SetDt(s, dt), pTol |-> R0, uTol |-> R0, cond |-> R1, pm |-> R0, gain |-> R0]
       ELSE IF unclear \/ singular THEN [clear |-> FALSE]
       ELSE [clear |-> TRUE, m |-> m, cond |-> cond, pm |-> pm, gain |-> gain,
             pTol |-> RAdd(RMul(RLit("1e-9"), pm), RMul(RInt(2), perr)),
             uTol |-> RAdd(RMul(StepTol, du), RMul(RMul(RInt(10), gain), perr))]

(* where the visible columns c differ from those of m by more than the tolerances of k *)
DiffBad(PS, w, m, c, k, dt, how) ==
    Chk(PS, "density " \o how, {i \in Ids(m) : ~RClose(c.n[i], m.n[i], RLit("1e-9"), RMax(w.E.n0, m.n[i]))})
    \cup Chk(PS, "pressure " \o how, {i \in Ids(m) : ~RClose(c.p[i], m.p[i], R1, k.pTol)})
    \cup Chk(PS, "velocity " \o how, {i \in Ids(m) : ~VClose(c.u[i], m.u[i], R1, RAdd(k.uTol, RMul(TINY, RAdd(VNorm(m.u[i]), RDiv(VNorm(m.x[i]), dt)))))})
    \cup Chk(PS, "position " \o how, {i \in Ids(m) : ~VClose(c.x[i], m.x[i], R1, RAdd(RMul(dt, k.uTol), RMul(RLit("1e-14"), VNorm(m.x[i]))))})

StepBad(w, e) ==
    LET s == w.s
        d == Disable(w.O, w.E, s)
        k == TLCEval(StepOf(w, s, e.dt))
        PS == {"P25", "P26"}
    IN DtBad(w, e)
       \cup Chk(PS \cup {"P02"}, "type after the step", {i \in Ids(s) : e.ty[i] # d.ty[i] /\ ~AmbInside(w, i)})
       \cup Chk({"P02", "P25"}, "disabled particle changed", {i \in Ids(s) : s.ty[i] = Disabled /\ ~Frozen(s, e, i)})
       \cup (IF PS \cap Props = {} \/ ~k.clear THEN {} ELSE DiffBad(PS, w, k.m, e, k, e.dt, "after the step"))

----------------------------------------------------------------------------
(* A step is a function of the visible state: a twin - a new simulation, in a process of its own, that was given *)
(* the particles this one had at the beginning of the step - has the same particles after it.  And if it was given *)
(* an image of these particles (renumbered, mirrored, shifted, moving along), it has the image of the particles.   *)

Identity(s, O) == [perm |-> [i \in Ids(s) |-> i], mirror |-> [a \in 1..O.dim |-> R1], shift |-> ZeroV(O), boost |-> ZeroV(O)]
RelOf(w, s) == IF w.rel = <<>> THEN Identity(s, w.O) ELSE w.rel[1]
MulV(v, w) == [a \in DOMAIN v |-> RMul(v[a], w[a])]
ImageOf(r, s, after) == \* after: the time since the image was made
    LET from(j) == r.perm[j]
    IN [ty |-> [j \in Ids(s) |-> s.ty[from(j)]], p |-> [j \in Ids(s) |-> s.p[from(j)]], n |-> [j \in Ids(s) |-> s.n[from(j)]],
        u |-> TLCEval([j \in Ids(s) |-> VAdd(MulV(r.mirror, s.u[from(j)]), r.boost)]),
        x |-> TLCEval([j \in Ids(s) |-> VAdd(VAdd(MulV(r.mirror, s.x[from(j)]), r.shift),
                                         IF s.ty[from(j)] = Disabled THEN ZeroV([dim |-> Len(r.shift)]) ELSE VScale(after, r.boost))])]
SameState(a, b) == /\ a.ty = b.ty
                   /\ \A i \in Ids(a) : SameV(a.x[i], b.x[i]) /\ SameV(a.u[i], b.u[i]) /\ Same(a.p[i], b.p[i]) /\ Same(a.n[i], b.n[i])
Twins(c) == {d \in DOMAIN ws : ws[d].from = c /\ ~ws[d].dead /\ ws[d].s0 # <<>>
                               /\ Len(ws[d].s0[1].ty) = Len(ws[c].s0[1].ty)
                               /\ ws[d].auto = ws[c].auto /\ Same(ws[d].want, ws[c].want)
                               /\ SameState(ws[d].s0[1], ImageOf(RelOf(ws[d], ws[c].s0[1]), ws[c].s0[1], R0))}
Within(w, s) == \A i \in Ids(s) : IsOn(s, i) => \A a \in 1..w.O.dim : RLe(w.E.min[a], s.x[i][a]) /\ RLe(s.x[i][a], w.E.max[a])
TwinOf(d) == IF ws[d].sched THEN {"P14"} ELSE IF ws[d].rel = <<>> THEN {"P13"} ELSE {"P21"}
Decided(c, d) == LET w == ws[c] IN
    ws[d].rel # <<>> => (\A a \in 1..w.O.dim : Same(ws[d].rel[1].mirror[a], R1)) \/ Within(w, w.s0[1])
(* how many twins the step is compared with *)
Compared(c, e) == LET T == {d \in Twins(c) : ws[d].ph = "idle" /\ Decided(c, d)}
                  IN IF T = {} \/ ({"P13", "P14", "P21"} \cap Props = {}) THEN 0 \* not asked for
                     ELSE IF (\A d \in T : ws[d].rel = <<>>) \/ StepOf(ws[c], ws[c].s0[1], e.dt).clear THEN Cardinality(T) ELSE 0
TwinBad(c, e) ==
    LET w == ws[c]
        T == Twins(c)
        k == TLCEval(StepOf(w, w.s0[1], e.dt))
        \* moving the particles rounds their positions
        far(d) == RMaxOf([i \in Ids(w.s) |-> RAdd(VNorm(w.s.x[i]), VNorm(ws[d].s.x[i]))])
        round(d) == RMul(RLit("1e-14"), RAdd(RInt(100), RDiv(far(d), w.E.l0)))
        kOf(d) == IF ws[d].rel = <<>> THEN k
                  ELSE LET pErr == RMul(RMul(round(d), k.cond), k.pm)
                       IN [k EXCEPT !.pTol = RAdd(@, pErr), !.uTol = RAdd(RAdd(@, RMul(k.gain, pErr)), RMul(round(d), RDiv(w.E.l0, e.dt)))]
        P(d) == TwinOf(d)
        how(d) == IF ws[d].sched THEN "differs with other threads" ELSE IF ws[d].rel = <<>> THEN "differs from that in a new simulation" ELSE "differs from that in the image"
        other(d) == LET s == ws[d].s
                        r == RelOf(ws[d], e)
                        m == ImageOf(r, e, e.dt)
                        sub == {i \in Ids(s) : ~AmbInside([w EXCEPT !.s = w.s0[1]], r.perm[i])}
            IN Chk(P(d), "time step " \o how(d), One(RelEq(s.dt, e.dt)))
               \cup Chk(P(d), "type " \o how(d), {i \in sub : s.ty[i] # m.ty[i]})
               \cup (IF sub # Ids(s) \/ ~k.clear THEN {} ELSE DiffBad(P(d), w, m, s, kOf(d), e.dt, how(d)))
    IN UNION {IF TwinOf(d) \cap Props = {} \/ ~Decided(c, d) THEN {}
              ELSE IF ws[d].ph = "idle" THEN (IF SameState(ws[d].s, e) /\ Same(ws[d].s.dt, e.dt) THEN {} ELSE other(d))
              ELSE IF ws[d].fail = "grid" THEN Chk(TwinOf(d) \ {"P21"}, "fails " \o (IF ws[d].sched THEN "with other threads" ELSE "in a new simulation"), {0}) ELSE {} : d \in T}

----------------------------------------------------------------------------
(* Actions *)

Ev == Trace[l]
In(ev) == l <= Last /\ Ev.ev = ev
W0 == ws[Ev.c]
More == l + 1
EndOfScenario == l > Last \/ (l > 1 /\ Trace[l].k # Trace[l - 1].k)

Count(steps, subj) == [cnt EXCEPT !.events = @ + 1, !.steps = @ + steps, !.subjects = @ + subj]

New == /\ In("new")
       /\ LET w == NewWorld(Ev)
          IN /\ ws' = Put(ws, Ev.c, w @@ [ambEcs |-> {}])
             /\ bad' = bad \cup EnvBad(w, Ev)
       /\ cnt' = Count(0, 1) /\ l' = More

Follow(w, violations, w2, next, steps) ==
    /\ IF Shape(w.s, Ev)
       THEN bad' = bad \cup violations /\ ws' = [ws EXCEPT ![Ev.c] = [w2 EXCEPT !.ph = next]]
       ELSE bad' = bad \cup Chk({"P03", "P25"}, "number of particles changed", {0}) /\ ws' = [ws EXCEPT ![Ev.c] = [w EXCEPT !.dead = TRUE]]
    /\ cnt' = [Count(steps, Len(Ev.ty)) EXCEPT !.twins = @ + (IF steps = 0 THEN 0 ELSE Compared(Ev.c, Ev))] /\ l' = More

Add == /\ In("add") /\ W0.ph = "idle"
       /\ Follow(W0, FrameBad(W0, Ev, {}), [W0 EXCEPT !.pre = Ev.ps, !.from = Ev.from, !.s0 = <<>>], "adding", 0)
Added == /\ In("added") /\ W0.ph = "adding"
         /\ LET w == W0
                ps == w.pre
                n == Len(w.s.ty)
                k == Len(ps.ty)
                exp == [ty |-> w.s.ty \o ps.ty, x |-> w.s.x \o ps.x, u |-> w.s.u \o ps.u, p |-> w.s.p \o ps.p, n |-> w.s.n \o ps.n]
                ok == Len(Ev.ty) = n + k
            IN /\ bad' = bad \cup Chk({"P03", "P25"}, "particles added", One(ok))
                   \cup (IF ~ok THEN {} ELSE
                         Chk({"P03", "P25"}, "attributes after adding", {i \in 1..(n + k) :
                              ~(Ev.ty[i] = exp.ty[i] /\ SameV(Ev.x[i], exp.x[i]) /\ SameV(Ev.u[i], exp.u[i]) /\ Same(Ev.p[i], exp.p[i]) /\ Same(Ev.n[i], exp.n[i]))})
                         \cup Chk({"P04"}, "clock changed by adding", One(Same(Ev.t, w.s.t) /\ Same(Ev.dt, w.s.dt))))
               /\ ws' = [ws EXCEPT ![Ev.c] = [w EXCEPT !.ph = "idle", !.w0 = Ev.w0, !.pre = <<>>, !.dead = ~ok,
                                              !.s = Visible(Ev.ty, Ev.x, Ev.u, Ev.p, Ev.n, Ev.t, Ev.dt)]]
         /\ cnt' = Count(0, Len(Ev.ty)) /\ l' = More

Begin == /\ In("begin") /\ W0.ph = "idle"
         /\ Follow(W0, FrameBad(W0, Ev, {}), [W0 EXCEPT !.auto = ~Ev.prescribed, !.want = Ev.want, !.s0 = <<Visible(Ev.ty, Ev.x, Ev.u, Ev.p, Ev.n, Ev.t, Ev.dt)>>],
                   IF W0.hooks /\ ~Ev.quiet THEN "begun" ELSE "blind", 0)

SearchA == /\ In("search") /\ W0.ph = "begun"
           /\ Follow(W0, SearchBad(W0, Ev), AfterSearch(W0, Ev), "searched", 0)
Density1 == /\ In("density1") /\ W0.ph = "searched"
            /\ LET m == TLCEval(DensityIn(W0.O, W0.E, W0.s, Foc(W0)))
                   s2 == TLCEval(EcsIn(W0.O, W0.E, [Cols(W0.s, Ev) EXCEPT !.raw = m.raw], Foc(W0)))
                   w1 == [W0 EXCEPT !.s = s2]
                   P == PairsIn(W0.E, s2, Foc(W0))
               IN Follow(W0, DensityBad(W0, m, Ev),
                         [w1 EXCEPT !.ambEcs = IF W0.O.ecs THEN {i \in Foc(W0) : Bears(s2, i) /\ W0.O.hs /\ (AmbDeficit(w1, i) \/ AmbReach(w1, P, i))} ELSE {}],
                         "dense1", 0)
ExplicitA == /\ In("explicit") /\ W0.ph = "dense1"
             /\ Follow(W0, ExplicitBad(W0, Ev), [W0 EXCEPT !.s = Cols(W0.s, Ev)], "explicit", 0)
Density2 == /\ In("density2") /\ W0.ph = "explicit"
            /\ LET m == TLCEval(DensityIn(W0.O, W0.E, W0.s, Foc(W0)))
               IN Follow(W0, DensityBad(W0, m, Ev), [W0 EXCEPT !.s = [Cols(W0.s, Ev) EXCEPT !.raw = m.raw, !.x0 = Ev.x]], "dense2", 0)
Assembled == /\ In("assembled") /\ W0.ph = "dense2" /\ ~W0.O.expl
             /\ Follow(W0, AssembledBad(W0, Ev), AfterAssembled(W0, Ev), "assembled", 0)
Solve == /\ In("solve") /\ W0.ph = "assembled"
         /\ Follow(W0, SolveBad(W0, Ev), [W0 EXCEPT !.s = Cols(W0.s, Ev), !.sol = Ev.sol], "solved", 0)
Pressure == /\ In("pressure") /\ W0.ph = (IF W0.O.expl THEN "dense2" ELSE "solved")
            /\ Follow(W0, PressureBad(W0, Ev), [W0 EXCEPT !.s = Cols(W0.s, Ev)], "pressed", 0)
GradientA == /\ In("gradient") /\ W0.ph = "pressed"
             /\ Follow(W0, GradientBad(W0, Ev), [W0 EXCEPT !.s = Cols(W0.s, Ev)], "corrected", 0)
End == /\ In("end") /\ W0.ph = "corrected"
       /\ Follow(W0, RepulsionBad(W0, Ev) \cup TwinBad(Ev.c, Ev), [W0 EXCEPT !.s = Cols(W0.s, Ev), !.exact = FALSE, !.A = <<>>, !.b = <<>>, !.g0 = <<>>, !.sol = <<>>], "idle", 1)
Blind == /\ In("end") /\ W0.ph = "blind"
         /\ Follow(W0, IF W0.s.ty = <<>> THEN {} ELSE StepBad(W0, Ev) \cup CallsBad(W0, SetDt(Disable(W0.O, W0.E, W0.s), Ev.dt), Ev) \cup TwinBad(Ev.c, Ev), [W0 EXCEPT !.s = Cols(W0.s, Ev), !.exact = FALSE], "idle", 1)

(* A step that raises an error: an overfull block, or a pressure equation the solver may give up on. *)
GaveUpBad(w) ==
    LET n == Len(w.s.ty)
        dt == IF w.auto THEN AutoDt(w.E, w.s) ELSE w.want
        s4 == Predict(w.O, w.E, w.s, dt, WallsAt(w, SetDt(w.s, dt)))
        sys == IF w.ph = "assembled" THEN [A |-> w.A, b |-> w.b] ELSE System(w.O, w.E, s4)
        x0 == IF w.ph = "assembled" THEN w.g0 ELSE [i \in 1..n |-> Guess(w.O, w.E, s4, i)]
    IN Chk({"P09", "P23"}, "solver gave up on a solvable equation", One(~CgMust(sys.A, sys.b, x0, w.E.eps)))
Throw == /\ In("throw")
         /\ LET w == W0
                over == Overfull(w.O, w.E, Disable(w.O, w.E, w.s))
            IN bad' = bad \cup
                 (CASE w.ph \in {"begun", "blind"} /\ over -> Chk({"P15", "P23"}, "overfull block not reported as such", One(Ev.kind = "grid"))
                    [] w.ph \in {"begun", "blind"} /\ ~over /\ Ev.kind = "grid" -> Chk({"P01", "P15", "P23", "P25"}, "block reported overfull", {0})
                    [] Ev.kind = "computer" /\ ~w.O.expl /\ w.ph \in {"assembled", "blind"} -> GaveUpBad(w)
                    [] OTHER -> Chk({"P09", "P23", "P25", "P26"}, "step failed", {0}))
                 \cup Chk({"P13", "P14"} \cap UNION {TwinOf(d) : d \in Twins(Ev.c)}, "does not fail in a new simulation or with other threads",
                          IF Ev.kind = "grid" /\ w.s0 # <<>> THEN {d \in Twins(Ev.c) : ws[d].ph = "idle" /\ ws[d].rel = <<>>} ELSE {})
         /\ ws' = [ws EXCEPT ![Ev.c].ph = "failed", ![Ev.c].fail = Ev.kind]
         /\ cnt' = Count(1, 1) /\ l' = More

(* The program died or hung. *)
Crash == /\ In("crash")
         /\ bad' = bad \cup Chk(Props, "the program " \o Ev.how, {0})
         /\ ws' = [c \in DOMAIN ws |-> [ws[c] EXCEPT !.ph = "failed"]]
         /\ cnt' = Count(0, 0) /\ l' = More

(* The driver ran some steps without recording them: continue from there. *)
Jump == /\ In("jump") /\ W0.ph = "idle"
        /\ ws' = [ws EXCEPT ![Ev.c].s = Visible(Ev.ty, Ev.x, Ev.u, Ev.p, Ev.n, Ev.t, Ev.dt)]
        /\ bad' = bad \cup Chk({"P03", "P25"}, "number of particles changed", One(Len(Ev.ty) = Len(W0.s.ty)))
        /\ cnt' = Count(0, 0) /\ l' = More

(* After the particle list has been lost nothing else can be judged. *)
Skip == /\ l <= Last /\ Ev.ev # "crash" /\ Ev.c \in DOMAIN ws /\ W0.dead /\ Ev.ev # "new"
        /\ l' = More /\ UNCHANGED <<ws, bad>> /\ cnt' = Count(0, 0)

Init == /\ l \in Firsts
        /\ ws = <<>> /\ bad = {}
        /\ cnt = [twins |-> 0, events |-> 0, steps |-> 0, subjects |-> 0, first |-> l]

Finished == IF l > Last THEN TRUE ELSE Trace[l].k # Trace[cnt.first].k   \* the scenario is used up
Finish == /\ cnt.first > 0 /\ Finished
          /\ \A c \in DOMAIN ws : ws[c].ph \in {"idle", "failed"} \/ ws[c].dead   \* every step ended
          /\ PrintT(<<"DONE", Trace[cnt.first].k, cnt.events, cnt.steps, cnt.subjects, cnt.twins>>)
          /\ cnt' = [cnt EXCEPT !.first = 0] /\ UNCHANGED <<l, bad>> /\ ws' = <<>>
Idle == cnt.first = 0 /\ UNCHANGED vars

Consume == \/ New \/ Crash \/ Skip
           \/ /\ Ev.ev \notin {"new", "crash"} /\ ~W0.dead
              /\ \/ Add \/ Added \/ Begin \/ SearchA \/ Density1 \/ ExplicitA \/ Density2 \/ Assembled \/ Solve
                 \/ Pressure \/ GradientA \/ End \/ Blind \/ Throw \/ Jump
Next == \/ cnt.first > 0 /\ ~Finished /\ Consume
        \/ Finish
        \/ Idle
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
(* What TLC shows of a state. *)
Show == [line |-> l, scenario |-> IF l > 1 THEN Trace[l - 1].k ELSE 1,
         event |-> IF l > 1 THEN Trace[l - 1].ev ELSE "", next |-> IF l <= Last THEN Trace[l].ev ELSE "end",
         phases |-> {ws[c].ph : c \in DOMAIN ws}, bad |-> bad]
=============================================================================
