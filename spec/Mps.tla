-------------------------------- MODULE Mps --------------------------------
(***************************************************************************)
(* One time step of the moving particle semi-implicit method as OpenMPS    *)
(* promises it: the state of a simulation, and one operator per stage of   *)
(* a step.  The operators are functions on states, so a step is a          *)
(* composition of stages (Step at the end).  MpsTrace.tla checks recorded  *)
(* executions of the implementation stage by stage against them,           *)
(* MpsMC.tla explores them exhaustively on small configurations.           *)
(*                                                                         *)
(* O  the compile-time method options (booleans) and the dimension dim:    *)
(*    spp hs hl ecs ds gc expl central                                     *)
(* E  the parameters: re nl l0 maxdx maxdt g rho nu min max n0 lam sr c    *)
(* s  the state.                                                           *)
(*    visible: ty[i] x[i] u[i] p[i] n[i] of particle i \in 1..#, t, dt     *)
(*    within a step: nbr[i] neighbours, raw[i] density without the virtual *)
(*    surface particle, ecs[i] error compensation, x0[i] position before   *)
(*    the pressure correction                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real

Fluid == 0
Wall == 1
Dummy == 2
Disabled == 3

Ids(s) == DOMAIN s.ty
IsOn(s, i) == s.ty[i] # Disabled                 \* takes part in the simulation
Bears(s, i) == s.ty[i] \in {Fluid, Wall}         \* has a density and a pressure of its own
ZeroV(O) == [a \in 1..O.dim |-> R0]

(* The weight function. *)
W(re, r) == IF RLt(R0, r) /\ RLt(r, re) THEN RSub(RDiv(re, r), R1) ELSE R0

Cube(r) == RMul(RMul(r, r), r)

(* Sum of vectors f[e] together with the sum of their lengths (the scale of its rounding error). *)
AccV(O, f) == LET g == TLCEval(f) IN [v |-> VSum(ZeroV(O), g), m |-> RSum([e \in DOMAIN g |-> VNorm(g[e])])]
AccR(f)    == LET g == TLCEval(f) IN [v |-> RSum(g), m |-> RSum([e \in DOMAIN g |-> RAbs(g[e])])]

----------------------------------------------------------------------------
(* Derived parameters (Environment). q: the parameters as given. *)

RECURSIVE CeilPow(_, _)
CeilPow(b, k) == IF k = 0 THEN 1 ELSE b * CeilPow(b, k - 1)

(* The lattice around a particle whose spacing is 1, in all directions within reach of ratio q.ratio *)
LatticePoints(O, q) == LET m == RCeil(q.ratio)
                       IN  {v \in [1..O.dim -> (-m)..m] : v # [a \in 1..O.dim |-> 0]}
LatticeR(O, v) == RSqrt(RInt(IF O.dim = 2 THEN v[1] * v[1] + v[2] * v[2] ELSE v[1] * v[1] + v[2] * v[2] + v[3] * v[3]))
Lattice(O, q) == {v \in LatticePoints(O, q) : RLt(LatticeR(O, v), q.ratio)}
N0Of(O, q)  == LET L == Lattice(O, q) IN RSum([v \in L |-> W(q.ratio, LatticeR(O, v))])
LamOf(O, q) == LET L == Lattice(O, q)
               IN RDiv(RMul(RMul(q.l0, q.l0), RSum([v \in L |-> RMul(RMul(LatticeR(O, v), LatticeR(O, v)), W(q.ratio, LatticeR(O, v)))])),
                       N0Of(O, q))

EnvOf(O, q) ==
    LET maxdx == RMul(q.courant, q.l0)
        re    == RMul(q.ratio, q.l0)
    IN [ l0 |-> q.l0, re |-> re, maxdx |-> maxdx,
         nl |-> RMul(re, RAdd(R1, RMul(RInt(2), q.courant))),
         maxdt |-> RMin(q.maxdt, IF O.expl THEN RDiv(maxdx, q.c) ELSE RSqrt(RDiv(RMul(RInt(2), maxdx), q.g))),
         g |-> [a \in 1..O.dim |-> IF a = O.dim THEN RNeg(q.g) ELSE R0],
         rho |-> q.rho, nu |-> q.nu, min |-> q.min, max |-> q.max,
         sr |-> q.sr, c |-> q.c,
         n0 |-> N0Of(O, q), lam |-> LamOf(O, q) ]

----------------------------------------------------------------------------
(* Choosing the time step and advancing the clock. *)

Speeds(s) == [i \in {i \in Ids(s) : IsOn(s, i)} |-> VNorm(s.u[i])]
AutoDt(E, s) == LET m == RMaxOf(Speeds(s)) IN IF REq(m, R0) THEN E.maxdt ELSE RMin(RDiv(E.maxdx, m), E.maxdt)

SetDt(s, dt) == [s EXCEPT !.dt = dt, !.t = RAdd(s.t, dt)]

----------------------------------------------------------------------------
(* Neighbour search. *)

(* The search region along axis a: blocks of length nl from the minimum corner. *)
Blocks(E, a) == RCeil(RDiv(RSub(E.max[a], E.min[a]), E.nl)) + 2
BlockOf(E, x, a) == RFloor(RDiv(RSub(x[a], E.min[a]), E.nl))
Inside(O, E, x) == \A a \in 1..O.dim : BlockOf(E, x, a) >= 0 /\ BlockOf(E, x, a) < Blocks(E, a)

Disable(O, E, s) == [s EXCEPT !.ty = TLCEval([i \in Ids(s) |-> IF Inside(O, E, s.x[i]) THEN s.ty[i] ELSE Disabled])]

Dist(s, i, j) == VNorm(VSub(s.x[j], s.x[i]))
NeighborsOf(E, s, i, len) == IF IsOn(s, i) THEN {j \in Ids(s) : j # i /\ IsOn(s, j) /\ RLt(Dist(s, i, j), len)} ELSE {}

(* Storing more particles in one block than it has room for is an error. *)
Capacity(O, E) == CeilPow(RCeil(RDiv(E.nl, E.l0)) + 1, O.dim)
BlockIx(O, E, x) == [a \in 1..O.dim |-> BlockOf(E, x, a)]
Overfull(O, E, s) ==
    LET stored == {i \in Ids(s) : IsOn(s, i) /\ Inside(O, E, s.x[i])}
        at == TLCEval([i \in stored |-> BlockIx(O, E, s.x[i])])
        cap == Capacity(O, E)
    IN \E b \in {at[i] : i \in stored} : Cardinality({i \in stored : at[i] = b}) > cap

Search(O, E, s) ==
    LET d == Disable(O, E, s)
    IN [d EXCEPT !.nbr = TLCEval([i \in Ids(d) |-> NeighborsOf(E, d, i, E.nl)])]

----------------------------------------------------------------------------
(* The pairs in reach: for every particle i, the neighbours closer than the  *)
(* influence radius, with relative position dx and distance r.               *)

PairsOf(E, s, i) ==
    LET all == TLCEval([j \in s.nbr[i] |-> LET dx == VSub(s.x[j], s.x[i]) IN [dx |-> dx, r |-> VNorm(dx)]])
    IN TLCEval([j \in {j \in DOMAIN all : RLt(all[j].r, E.re)} |-> all[j]])
PairsIn(E, s, I) == TLCEval([i \in I |-> PairsOf(E, s, i)])   \* for the particles in I only
Pairs(E, s) == PairsIn(E, s, Ids(s))

NonDummy(s, P, i) == {j \in DOMAIN P[i] : s.ty[j] # Dummy}

----------------------------------------------------------------------------
(* Number density. *)

RawN(E, P, i) == RSum([j \in DOMAIN P[i] |-> W(E.re, P[i][j].r)])

DensityIn(O, E, s, I) ==
    LET P == PairsIn(E, s, I)
        raw == TLCEval([i \in I |-> IF Bears(s, i) THEN RawN(E, P, i) ELSE E.n0])
    IN [s EXCEPT !.raw = raw,
                 !.n = TLCEval([i \in Ids(s) |-> IF i \notin I \/ ~Bears(s, i) THEN s.n[i]
                                                 ELSE IF O.spp THEN RMax(raw[i], E.n0) ELSE raw[i]])]
Density(O, E, s) == DensityIn(O, E, s, Ids(s))

(* The virtual particle that fills up a deficient density (space potential particle): *)
(* opposite to the centre of the neighbours, the nearer the larger the deficiency.    *)
Centre(O, E, P, i) == LET a == AccV(O, [j \in DOMAIN P[i] |-> VScale(W(E.re, P[i][j].r), P[i][j].dx)])
                      IN [v |-> VScale(RDiv(R1, E.n0), a.v), m |-> RDiv(a.m, E.n0)]
Epsilon == RLit("2.220446049250313e-16")
HasSpp(O, E, s, P, i) == O.spp /\ RLt(s.raw[i], E.n0) /\ RLt(Epsilon, VNorm(Centre(O, E, P, i).v))
SppR(E, s, i) == RDiv(E.re, RAdd(RSub(E.n0, s.raw[i]), R1))
SppDx(O, E, s, P, i) == LET c == Centre(O, E, P, i).v IN VScale(RNeg(RDiv(SppR(E, s, i), VNorm(c))), c)

(* Free surface, without virtual particles. *)
IsSurface(O, E, s, i) == ~O.spp /\ RLt(RDiv(s.n[i], E.n0), E.sr)

----------------------------------------------------------------------------
(* Rate of change of the density and error compensation. *)

SpeedHS(E, s, P, i) ==
    LET a == AccR([j \in DOMAIN P[i] |-> RDiv(VDot(P[i][j].dx, VSub(s.u[j], s.u[i])), Cube(P[i][j].r))])
        b == RSum([j \in DOMAIN P[i] |-> RDiv(RMul(P[i][j].r, RAdd(VNorm(s.u[j]), VNorm(s.u[i]))), Cube(P[i][j].r))])
    IN [v |-> RMul(RNeg(E.re), a.v), m |-> RMul(E.re, b)]
Speed(O, E, s, P, i) ==
    IF ~O.hs THEN [v |-> RDiv(RSub(s.n[i], E.n0), s.dt), m |-> RDiv(RAdd(s.n[i], E.n0), s.dt)]
    ELSE IF O.spp /\ RLt(s.raw[i], E.n0) THEN [v |-> R0, m |-> R0]
    ELSE SpeedHS(E, s, P, i)

EcsOf(E, n, sp) == LET err == RDiv(RSub(n, E.n0), E.n0)
                   IN [v |-> RAdd(RMul(RAbs(err), sp.v), RMul(RAbs(sp.v), err)),
                       m |-> RMul(RInt(4), RMul(RAdd(RAbs(err), RLit("1e-3")), RAdd(sp.m, RAbs(sp.v))))]
EcsIn(O, E, s, I) ==
    LET P == PairsIn(E, s, I)
    IN [s EXCEPT !.ecs = TLCEval([i \in I |->
            IF O.ecs /\ Bears(s, i) THEN EcsOf(E, s.n[i], Speed(O, E, s, P, i)) ELSE [v |-> R0, m |-> R0]])]
Ecs(O, E, s) == EcsIn(O, E, s, Ids(s))

----------------------------------------------------------------------------
(* Explicit stage: gravity, viscosity, prescribed motion of walls. *)

LapCoef(O, E, r) == IF O.hl THEN RDiv(RMul(RInt(5 - O.dim), RDiv(E.re, E.n0)), Cube(r))
                    ELSE RMul(RDiv(RDiv(RInt(2 * O.dim), E.lam), E.n0), W(E.re, r))

(* gravity; with central gravity towards the origin of coordinates *)
Gravity(O, E, s, i) ==
    IF ~O.central THEN E.g
    ELSE LET r == VNorm(s.x[i]) IN IF RLt(r, RMul(E.l0, RLit("0.01"))) THEN ZeroV(O) ELSE VScale(RDiv(E.g[O.dim], r), s.x[i])
(* viscous acceleration of i by j *)
Visc(O, E, s, P, i, j) == VScale(RMul(E.nu, LapCoef(O, E, P[i][j].r)), VSub(s.u[j], s.u[i]))
Accel(O, E, s, P, i) ==
    LET a == AccV(O, [j \in NonDummy(s, P, i) |-> Visc(O, E, s, P, i, j)])
        b == RSum([j \in NonDummy(s, P, i) |-> RMul(RMul(E.nu, LapCoef(O, E, P[i][j].r)), RAdd(VNorm(s.u[j]), VNorm(s.u[i])))])
    IN [v |-> VAdd(a.v, Gravity(O, E, s, i)), m |-> RAdd(b, VNorm(E.g))]

(* w[i]: prescribed position of particle i in this step (for walls and dummies). *)
Explicit(O, E, s, w) ==
    LET P == Pairs(E, s)
        u == TLCEval([i \in Ids(s) |->
                CASE s.ty[i] = Fluid -> VAdd(s.u[i], VScale(s.dt, Accel(O, E, s, P, i).v))
                  [] s.ty[i] = Disabled -> s.u[i]
                  [] OTHER -> VScale(RDiv(R1, s.dt), VSub(w[i], s.x[i]))])
        x == TLCEval([i \in Ids(s) |->
                CASE s.ty[i] = Fluid -> VAdd(s.x[i], VScale(s.dt, u[i]))
                  [] s.ty[i] = Disabled -> s.x[i]
                  [] OTHER -> w[i]])
    IN [s EXCEPT !.u = u, !.x = x]

----------------------------------------------------------------------------
(* Pressure equation. *)

HasEq(O, E, s, i) == Bears(s, i) /\ ~IsSurface(O, E, s, i)

(* off-diagonal entries of row i: only towards particles that bear an equation themselves *)
OffDiag(O, E, s, P, i) == IF ~HasEq(O, E, s, i) THEN <<>>
    ELSE [j \in {j \in NonDummy(s, P, i) : ~IsSurface(O, E, s, j)} |-> LapCoef(O, E, P[i][j].r)]
Diag(O, E, s, P, i) == IF ~HasEq(O, E, s, i) THEN R1
    ELSE LET sum == RSum([j \in NonDummy(s, P, i) |-> LapCoef(O, E, P[i][j].r)])
             spp == IF HasSpp(O, E, s, P, i) THEN LapCoef(O, E, SppR(E, s, i)) ELSE R0
         IN RNeg(RAdd(sum, spp))
Rhs(O, E, s, P, i) == IF ~HasEq(O, E, s, i) THEN [v |-> R0, m |-> R0]
    ELSE LET sp == Speed(O, E, s, P, i)
             k == RDiv(E.rho, RMul(E.n0, s.dt))
         IN [v |-> RMul(RNeg(k), RAdd(sp.v, s.ecs[i].v)), m |-> RMul(k, RAdd(sp.m, s.ecs[i].m))]
Guess(O, E, s, i) == IF HasEq(O, E, s, i) THEN s.p[i] ELSE R0

(* The system as a whole: row functions and right-hand side. *)
Row(O, E, s, P, i) == LET off == OffDiag(O, E, s, P, i)
                      IN [j \in DOMAIN off \cup {i} |-> IF j = i THEN Diag(O, E, s, P, i) ELSE off[j]]
System(O, E, s) ==
    LET P == Pairs(E, s)
    IN [A |-> TLCEval([i \in Ids(s) |-> Row(O, E, s, P, i)]),
        b |-> TLCEval([i \in Ids(s) |-> Rhs(O, E, s, P, i).v])]

(* The solver: conjugate gradients from the initial guess, one iteration per unknown at most.  The *)
(* specification says when it must succeed: when reaching the tolerance needs few enough iterations. *)
MatMul(A, x) == TLCEval([i \in DOMAIN A |-> RSum([j \in DOMAIN A[i] |-> RMul(A[i][j], x[j])])])
DotN(x, y) == RSum([i \in DOMAIN x |-> RMul(x[i], y[i])])
Axpy(c, x, y) == TLCEval([i \in DOMAIN x |-> RAdd(RMul(c, x[i]), y[i])])   \* c x + y
RECURSIVE CgRun(_, _, _, _, _, _, _)
CgRun(A, x, r, p, rr, goal, k) == \* iterations until r.r < goal, at most k (k + 1: not reached)
    IF RLt(rr, goal) \/ REq(rr, R0) THEN 0
    ELSE IF k = 0 THEN 1
    ELSE LET Ap == MatMul(A, p)
             al == RDiv(rr, DotN(p, Ap))
             x2 == Axpy(al, p, x)
             r2 == Axpy(RNeg(al), Ap, r)
             q2 == DotN(r2, r2)
             p2 == Axpy(RDiv(q2, rr), p, r2)
         IN 1 + CgRun(A, x2, r2, p2, TLCEval(q2), goal, k - 1)
CgIterations(A, b, x0, eps, k) ==
    LET r == TLCEval(Axpy(RInt(-1), MatMul(A, x0), b))
        rr == TLCEval(DotN(r, r))
    IN CgRun(A, x0, r, r, rr, RMul(rr, RMul(eps, eps)), k)
CgMust(A, b, x0, eps) == \* the solver may not give up on this system
    LET n == Len(b)
        most == IF n <= 4 THEN n ELSE (2 * n) \div 3
    IN CgIterations(A, b, x0, RMul(eps, RLit("1e-2")), most) <= most

(* sol: a solution of the pressure equation. *)
Clip(O, E, s, sol) ==
    [s EXCEPT !.p = TLCEval([i \in Ids(s) |-> IF ~Bears(s, i) THEN s.p[i]
                                  ELSE IF IsSurface(O, E, s, i) \/ RLt(sol[i], R0) THEN R0 ELSE sol[i]])]

(* Explicit variant: equation of state. *)
EosP(E, n) == LET rho == RMul(RDiv(E.rho, E.n0), n)
              IN IF RLe(rho, E.rho) THEN R0 ELSE RMul(RMul(E.c, E.c), RSub(rho, E.rho))
Eos(O, E, s) == [s EXCEPT !.p = TLCEval([i \in Ids(s) |-> IF IsOn(s, i) THEN EosP(E, s.n[i]) ELSE s.p[i]])]

----------------------------------------------------------------------------
(* Pressure gradient. *)

(* Everything that pushes particle i: the non-dummy particles in reach and the virtual particle, as *)
(* a function from ids (0 for the virtual one) to relative position, distance and pressure.         *)
Pushers(O, E, s, P, i) ==
    LET spp == HasSpp(O, E, s, P, i)
        D   == NonDummy(s, P, i) \cup (IF spp THEN {0} ELSE {})
    IN TLCEval([j \in D |-> IF j = 0 THEN [dx |-> SppDx(O, E, s, P, i), r |-> SppR(E, s, i), p |-> R0]
                            ELSE [dx |-> P[i][j].dx, r |-> P[i][j].r, p |-> s.p[j]]])

(* The gradient correction matrix of Khayyer and Gotoh: inverse of the sum of W/r^2 dx (x) dx *)
(* over everything in reach (dummies and the virtual particle included).                      *)
DirMatrix(O, E, s, P, i) ==
    LET spp == HasSpp(O, E, s, P, i)
        D   == DOMAIN P[i] \cup (IF spp THEN {0} ELSE {})
        q   == TLCEval([j \in D |-> IF j = 0 THEN [dx |-> SppDx(O, E, s, P, i), r |-> SppR(E, s, i)] ELSE P[i][j]])
        k   == TLCEval([j \in D |-> RDiv(W(E.re, q[j].r), RMul(q[j].r, q[j].r))])
    IN TLCEval([a \in 1..O.dim |-> [b \in 1..O.dim |-> RSum([j \in D |-> RMul(k[j], RMul(q[j].dx[a], q[j].dx[b]))])]])
Det2(a, b, c, d) == RSub(RMul(a, d), RMul(b, c))
Minor(M, a, b) == LET rows == IF a = 1 THEN <<2, 3>> ELSE IF a = 2 THEN <<1, 3>> ELSE <<1, 2>>
                      cols == IF b = 1 THEN <<2, 3>> ELSE IF b = 2 THEN <<1, 3>> ELSE <<1, 2>>
                  IN Det2(M[rows[1]][cols[1]], M[rows[1]][cols[2]], M[rows[2]][cols[1]], M[rows[2]][cols[2]])
Cof(M, a, b) == IF (a + b) % 2 = 0 THEN Minor(M, a, b) ELSE RNeg(Minor(M, a, b))
Det(O, M) == IF O.dim = 2 THEN Det2(M[1][1], M[1][2], M[2][1], M[2][2])
             ELSE RAdd(RMul(M[1][1], Cof(M, 1, 1)), RAdd(RMul(M[1][2], Cof(M, 1, 2)), RMul(M[1][3], Cof(M, 1, 3))))
Inverse(O, M) == LET d == Det(O, M)
    IN IF O.dim = 2 THEN <<<<RDiv(M[2][2], d), RNeg(RDiv(M[1][2], d))>>, <<RNeg(RDiv(M[2][1], d)), RDiv(M[1][1], d)>>>>
       ELSE [a \in 1..3 |-> [b \in 1..3 |-> RDiv(Cof(M, b, a), d)]]
Isotropic(O, v) == [a \in 1..O.dim |-> [b \in 1..O.dim |-> IF a = b THEN v ELSE R0]]
Corrective(O, E, s, P, i) == LET M == DirMatrix(O, E, s, P, i)
    IN TLCEval(IF REq(Det(O, M), R0) THEN Isotropic(O, RDiv(RInt(O.dim), E.n0)) ELSE Inverse(O, M))
MatVec(C, v) == [a \in DOMAIN v |-> VDot(C[a], v)]

(* Velocity change of i by the pressure gradient. *)
GradCoef(E, s, q, i) == RMul(RDiv(RAdd(q.p, s.p[i]), RMul(q.r, q.r)), W(E.re, q.r))
(* the part of it that j exerts (without gradient correction) *)
Push(O, E, s, q, i) == VScale(RMul(RNeg(RDiv(RMul(s.dt, RInt(O.dim)), RMul(E.rho, E.n0))), GradCoef(E, s, q, i)), q.dx)
PressureDu(O, E, s, P, i) ==
    LET Q == Pushers(O, E, s, P, i)
    IN IF O.gc
       THEN LET C == Corrective(O, E, s, P, i)
                a == AccV(O, [j \in DOMAIN Q |-> VScale(GradCoef(E, s, Q[j], i), MatVec(C, Q[j].dx))])
                k == RNeg(RDiv(RMul(s.dt, s.n[i]), RMul(E.rho, E.n0)))
            IN [v |-> VScale(k, a.v), m |-> RAbs(RMul(k, a.m))]
       ELSE AccV(O, [j \in DOMAIN Q |-> Push(O, E, s, Q[j], i)])

Move(s, i, d) == [u |-> VAdd(s.u[i], d), x |-> VAdd(s.x[i], VScale(s.dt, d))]
MoveFluid(s, D) == \* D[i]: velocity change of fluid particle i
    [s EXCEPT !.u = TLCEval([i \in Ids(s) |-> IF s.ty[i] = Fluid THEN Move(s, i, D[i]).u ELSE s.u[i]]),
              !.x = TLCEval([i \in Ids(s) |-> IF s.ty[i] = Fluid THEN Move(s, i, D[i]).x ELSE s.x[i]])]
FluidIds(s) == {i \in Ids(s) : s.ty[i] = Fluid}

Gradient(O, E, s) ==
    LET P == Pairs(E, s)
    IN MoveFluid([s EXCEPT !.x0 = s.x], TLCEval([i \in FluidIds(s) |-> PressureDu(O, E, s, P, i).v]))

----------------------------------------------------------------------------
(* Dynamic stabilization: artificial repulsion of particles that are too close. *)

SafeDist(E) == RSub(E.l0, E.maxdx)
Repulse(O, E, s, P, i, j) == \* what j contributes to the velocity change of i
    LET d2 == RMul(SafeDist(E), SafeDist(E))
        dx == P[i][j].dx
        y  == VSub(s.x0[j], s.x0[i])
        e  == VScale(RDiv(R1, VNorm(y)), y)
        par == VDot(dx, e)
        perp == VSub(dx, VScale(par, e))
        len == RSub(RSqrt(RSub(d2, VDot(perp, perp))), par)
    IN VScale(RNeg(RDiv(len, RMul(RMul(RInt(2), s.dt), E.n0))), e)
TooClose(E, s, P, i) == {j \in NonDummy(s, P, i) : RLt(VDot(P[i][j].dx, P[i][j].dx), RMul(SafeDist(E), SafeDist(E)))}
RepulseDu(O, E, s, P, i) ==
    LET C == TooClose(E, s, P, i)
        a == AccV(O, [j \in C |-> Repulse(O, E, s, P, i, j)])
    IN [v |-> a.v, m |-> RMul(RInt(4 * Cardinality(C)), RDiv(E.l0, RMul(s.dt, E.n0)))]
Repulsion(O, E, s) ==
    IF ~O.ds THEN s
    ELSE LET P == Pairs(E, s) IN MoveFluid(s, TLCEval([i \in FluidIds(s) |-> RepulseDu(O, E, s, P, i).v]))

----------------------------------------------------------------------------
(* A whole step from the visible state: the composition of the stages. *)

(* The solution the solver aims at: the unknown of a particle without anything in reach, whose row is empty, *)
(* stays what it was.                                                                                        *)
Free(sys, i) == REq(sys.A[i][i], R0) /\ DOMAIN sys.A[i] = {i}
Solvable(sys) == [i \in DOMAIN sys.A |-> IF Free(sys, i) THEN [j \in {i} |-> R1] ELSE sys.A[i]]
Solution(O, E, s, sys) ==
    TLCEval(RSolve(Solvable(sys), [i \in DOMAIN sys.b |-> IF Free(sys, i) THEN Guess(O, E, s, i) ELSE sys.b[i]]))

PressureStage(O, E, s) ==
    IF O.expl THEN Eos(O, E, s)
    ELSE Clip(O, E, s, Solution(O, E, s, System(O, E, s)))

Predict(O, E, s, dt, w) == \* up to the pressure stage
    LET s1 == TLCEval(Search(O, E, SetDt(s, dt)))
        s2 == TLCEval(Ecs(O, E, TLCEval(Density(O, E, s1))))
        s3 == TLCEval(Explicit(O, E, s2, w))
    IN TLCEval(Density(O, E, s3))
Step(O, E, s, dt, w) ==
    LET s4 == Predict(O, E, s, dt, w)
        s5 == TLCEval(PressureStage(O, E, s4))
        s6 == TLCEval(Gradient(O, E, s5))
    IN TLCEval(Repulsion(O, E, s6))

(* A state with the given visible columns. *)
Visible(ty, x, u, p, n, t, dt) ==
    [ty |-> ty, x |-> x, u |-> u, p |-> p, n |-> n, t |-> t, dt |-> dt,
     nbr |-> <<>>, raw |-> <<>>, ecs |-> <<>>, x0 |-> <<>>]
=============================================================================
