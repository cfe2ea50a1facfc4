-------------------------------- MODULE MpsMC --------------------------------
(***************************************************************************)
(* The step of Mps.tla on all small configurations: up to N particles of   *)
(* every type on decisive positions (pairs too close, exactly at the safe  *)
(* distance, at the influence radius, at the neighbour distance; on block  *)
(* borders, on both ends of the search region and just outside), at rest   *)
(* or moving, and all histories of up to Depth automatic steps, prescribed *)
(* steps and additions.  TLC checks that the specification keeps what the  *)
(* properties promise, and prints every history; the real code then makes  *)
(* the same histories and MpsTrace.tla judges what it did.                 *)
(***************************************************************************)
EXTENDS Mps, Json

CONSTANTS TheOs,     \* sets of method options, of one dimension
          TheQ,      \* parameters
          Wv,        \* velocity of walls
          Lists,     \* set of initial particle lists: sequences of indices into Kinds
          Later,     \* indices of particles that may be added
          Kinds,     \* the particles: sequence of [ty, x, u, p], x and u in integers
          Unit,      \* what the integers count
          Dts,       \* prescribed time steps
          Depth      \* operations at most
EnvFor == [o \in TheOs |-> EnvOf(o, TheQ) @@ [eps |-> RLit("1e-10")]]

VARIABLES O,    \* the method options
          s,    \* the state
          st,   \* the states within the last step: before, search, predicted, pressed, corrected
          w0,   \* where walls start
          hist  \* the operations
vars == <<O, s, st, w0, hist>>
E == EnvFor[O]

Real1(k) == RMul(RInt(k), Unit)
RealV(v) == [a \in DOMAIN v |-> Real1(v[a])]
Particle(k) == LET q == Kinds[k] IN [ty |-> q.ty, x |-> RealV(q.x), u |-> RealV(q.u), p |-> Real1(q.p)]
Append1(z, k) == LET q == Particle(k)
                 IN [z EXCEPT !.ty = Append(@, q.ty), !.x = Append(@, q.x), !.u = Append(@, q.u), !.p = Append(@, q.p), !.n = Append(@, R0)]
Nothing == Visible(<<>>, <<>>, <<>>, <<>>, <<>>, R0, R0)
RECURSIVE Build(_, _)
Build(z, L) == IF L = <<>> THEN z ELSE Build(Append1(z, Head(L)), Tail(L))

WallsAt(z, t) == TLCEval([i \in Ids(z) |-> VAdd(w0[i], VScale(RMul(RInt((i - 1) % 3), t), Wv))])
Fin(z) == \A i \in Ids(z) : RFinite(z.p[i]) /\ \A a \in 1..O.dim : RFinite(z.x[i][a]) /\ RFinite(z.u[i][a])
OkState == Fin(s) /\ \A i \in Ids(s) : RLe(s.p[i], RLit("1e6"))

MInit == O \in TheOs /\ \E L \in Lists :
                          /\ s = Build(Nothing, L) /\ w0 = s.x /\ st = <<>>
                          /\ hist = <<[op |-> "add", ps |-> L, dt |-> R0]>>
Stages(z, dt) == \* the states within a step
    LET s1 == TLCEval(Search(O, E, SetDt(z, dt)))
        s2 == TLCEval(Ecs(O, E, TLCEval(Density(O, E, s1))))
        s3 == TLCEval(Explicit(O, E, s2, WallsAt(z, s2.t)))
        s4 == TLCEval(Density(O, E, s3))
        sol == IF O.expl THEN <<>> ELSE Solution(O, E, s4, System(O, E, s4))
        s5 == TLCEval(IF O.expl THEN Eos(O, E, s4) ELSE Clip(O, E, s4, sol))
        s6 == TLCEval(Gradient(O, E, s5))
    IN [sol |-> sol, from |-> z, dense |-> s2, predicted |-> s4, pressed |-> s5, corrected |-> s6, end |-> Repulsion(O, E, s6)]
Clean(z) == [z EXCEPT !.nbr = <<>>, !.raw = <<>>, !.ecs = <<>>, !.x0 = <<>>]
MakeStep(dt, op) == LET g == Stages(s, dt) IN
    /\ st' = <<g>> /\ s' = Clean(g.end) /\ UNCHANGED <<O, w0>>
    /\ hist' = Append(hist, [op |-> op, ps |-> <<>>, dt |-> dt])
Steps(h) == Cardinality({i \in DOMAIN h : h[i].op # "add"})
May == Len(hist) <= Depth /\ OkState
Auto == May /\ MakeStep(AutoDt(E, s), "auto")
Fixed(dt) == May /\ MakeStep(dt, "fixed")
AddOne(k) == /\ May /\ Len(hist) < Depth /\ hist[Len(hist)].op # "add"
             /\ \A i \in Ids(s) : s.x[i] # Particle(k).x
             /\ s' = Append1(s, k) /\ w0' = Append(w0, Particle(k).x) /\ st' = <<>> /\ UNCHANGED O
             /\ hist' = Append(hist, [op |-> "add", ps |-> <<k>>, dt |-> R0])
MNext == Auto \/ (\E dt \in Dts : Fixed(dt)) \/ (\E k \in Later : AddOne(k))
MSpec == MInit /\ [][MNext]_vars

(* every history that ends in a step, once it cannot be continued *)
Behaviour == (Len(hist) <= Depth /\ OkState) \/ hist[Len(hist)].op = "add" \/ PrintT(ToJson([name |-> O.name, hist |-> hist]))

----------------------------------------------------------------------------
(* What the properties promise, of the specification. *)
S == st[1]
Z == S.from
M == S.end
(* a pressure equation without any free surface has no unique solution: the numbers that come out mean nothing *)
Bounded(f) == \A i \in DOMAIN f : RLe(RAbs(f[i]), RLit("1e6"))
Tame == Fin(M) /\ Bounded(S.sol)
If(P(_)) == st = <<>> \/ ~Tame \/ P(0)
Good(a, b, scale) == VClose(a, b, RLit("1e-11"), scale)

(* P02, P03 *)
Types(o) == /\ DOMAIN M.ty = DOMAIN Z.ty
            /\ \A i \in Ids(Z) : M.ty[i] = IF Z.ty[i] = Disabled \/ ~Inside(O, E, Z.x[i]) THEN Disabled ELSE Z.ty[i]
Frozen(o) == \A i \in Ids(Z) : M.ty[i] = Disabled => M.x[i] = Z.x[i] /\ M.u[i] = Z.u[i] /\ M.p[i] = Z.p[i] /\ M.n[i] = Z.n[i]
(* P02: the step without the disabled particles is the same *)
Compact(z, K) == LET n == Cardinality(K)
                     at == TLCEval([k \in 1..n |-> CHOOSE i \in K : Cardinality({j \in K : j <= i}) = k])
                     of(f) == TLCEval([k \in 1..n |-> f[at[k]]])
                 IN [z EXCEPT !.ty = of(z.ty), !.x = of(z.x), !.u = of(z.u), !.p = of(z.p), !.n = of(z.n)]
StepWith(z, w) == Clean(Step(O, E, z, S.end.dt, w))
Restricted(o) == LET K == {i \in Ids(Z) : M.ty[i] # Disabled}
                     cw == Compact([Z EXCEPT !.x = WallsAt(Z, M.t)], K).x
                 IN K = {} \/ StepWith(Compact(Z, K), cw) = Compact(Clean(M), K)
(* P04 *)
Clock(o) == /\ M.t = RAdd(Z.t, M.dt) /\ RLt(R0, M.dt)
            /\ hist[Len(hist)].op = "auto" => RLe(M.dt, E.maxdt) /\ \A i \in Ids(Z) : IsOn(Z, i) => RLe(RMul(M.dt, VNorm(Z.u[i])), RMul(E.maxdx, RLit("1.000000000001")))
(* P01 *)
Mutual(o) == \A i, j \in Ids(Z) : (j \in S.dense.nbr[i]) = (i \in S.dense.nbr[j])
(* P05 *)
Dense(o) == \A i \in Ids(M) : IF Bears(M, i) THEN (O.spp => RLe(E.n0, M.n[i])) /\ RLe(R0, M.n[i]) ELSE M.n[i] = Z.n[i]
(* P06: a particle with nothing in reach falls freely, and the solver leaves its pressure alone (where it has an empty row) *)
Alone(i) == S.dense.nbr[i] = {}
Falls(o) == \A i \in Ids(M) : M.ty[i] = Fluid /\ Alone(i) =>
                LET u == VAdd(Z.u[i], VScale(M.dt, Gravity(O, E, Z, i))) IN M.u[i] = u /\ M.x[i] = VAdd(Z.x[i], VScale(M.dt, u))
(* P07 *)
WallsMove(o) == \A i \in Ids(M) : M.ty[i] \in {Wall, Dummy} =>
                    M.x[i] = WallsAt(Z, M.t)[i] /\ M.u[i] = VScale(RDiv(R1, M.dt), VSub(M.x[i], Z.x[i]))
(* P08: symmetric, and minus the matrix is diagonally dominant *)
Matrix(o) == O.expl \/ LET sys == System(O, E, S.predicted)
                           B == {i \in Ids(Z) : HasEq(O, E, S.predicted, i)}
             IN /\ \A i \in B : \A j \in DOMAIN sys.A[i] \ {i} : RLe(R0, sys.A[i][j]) /\ (j \in B => i \in DOMAIN sys.A[j] /\ REq(sys.A[i][j], sys.A[j][i]))
                /\ \A i \in B : RLe(RSum([j \in DOMAIN sys.A[i] \ {i} |-> sys.A[i][j]]), RMul(RNeg(sys.A[i][i]), RLit("1.000000000001")))
                /\ \A i \in Ids(Z) \ B : sys.A[i] = [j \in {i} |-> R1] /\ REq(sys.b[i], R0)
(* P10 *)
NonNegative(o) == \A i \in Ids(M) : IF Bears(M, i) THEN RLe(R0, M.p[i]) ELSE O.expl \/ M.p[i] = Z.p[i]
(* P12 *)
KeepsDistance(o) == \A i \in FluidIds(M) :
    (\A j \in NonDummy(S.corrected, Pairs(E, S.corrected), i) : ~RLt(Dist(S.corrected, i, j), SafeDist(E)))
        => M.x[i] = S.corrected.x[i] /\ M.u[i] = S.corrected.u[i]
(* two fluid particles with nothing else around: each moves by half the missing distance over the reference density *)
Apart(o) == \A i, j \in FluidIds(M) : LET P == Pairs(E, S.corrected) IN
    i < j /\ O.ds /\ DOMAIN P[i] = {j} /\ DOMAIN P[j] = {i} /\ RLt(P[i][j].r, SafeDist(E))
        => LET y == VSub(S.corrected.x0[j], S.corrected.x0[i])
               e == VScale(RDiv(R1, VNorm(y)), y)
               gap(z) == VDot(VSub(z.x[j], z.x[i]), e)
               side(z) == VSub(VSub(z.x[j], z.x[i]), VScale(gap(z), e))
               due == RSub(RSqrt(RSub(RMul(SafeDist(E), SafeDist(E)), VDot(side(S.corrected), side(S.corrected)))), gap(S.corrected))
           IN RClose(RSub(gap(M), gap(S.corrected)), RDiv(due, E.n0), RLit("1e-10"), RAdd(E.l0, VNorm(M.x[i])))
(* P22: what fluid particles do to each other cancels *)
Cancels(o) ==
    LET P1 == Pairs(E, S.dense)
        P2 == Pairs(E, S.pressed)
        P3 == Pairs(E, S.corrected)
        opp(f, g) == Good(f, VScale(RInt(-1), g), RAdd(VNorm(f), VNorm(g)))
    IN /\ \A i \in FluidIds(M) : \A j \in DOMAIN P1[i] : M.ty[j] = Fluid => opp(Visc(O, E, S.dense, P1, i, j), Visc(O, E, S.dense, P1, j, i))
       /\ O.gc \/ \A i \in FluidIds(M) : \A j \in DOMAIN P2[i] : M.ty[j] = Fluid =>
              opp(Push(O, E, S.pressed, Pushers(O, E, S.pressed, P2, i)[j], i), Push(O, E, S.pressed, Pushers(O, E, S.pressed, P2, j)[i], j))
       /\ ~O.ds \/ \A i \in FluidIds(M) : \A j \in TooClose(E, S.corrected, P3, i) : M.ty[j] = Fluid => opp(Repulse(O, E, S.corrected, P3, i, j), Repulse(O, E, S.corrected, P3, j, i))
(* P21: mirrored, and in the opposite order *)
Flip(z) == LET m(v) == [v EXCEPT ![1] = RNeg(@)] IN [z EXCEPT !.x = [i \in Ids(z) |-> m(z.x[i])], !.u = [i \in Ids(z) |-> m(z.u[i])]]
FlipE == [E EXCEPT !.min = [@ EXCEPT ![1] = RNeg(E.max[1])], !.max = [@ EXCEPT ![1] = RNeg(E.min[1])], !.g = [@ EXCEPT ![1] = RNeg(@)]]
Core(z) == \A i \in Ids(z) : IsOn(z, i) => \A a \in 1..O.dim : RLt(E.min[a], z.x[i][a]) /\ RLt(z.x[i][a], E.max[a])
NearStates(a, b) == \A i \in Ids(a) :
    /\ a.ty[i] = b.ty[i] /\ VClose(a.x[i], b.x[i], RLit("1e-9"), RAdd(E.l0, VNorm(a.x[i])))
    /\ VClose(a.u[i], b.u[i], RLit("1e-9"), RAdd(RDiv(E.l0, M.dt), VNorm(a.u[i]))) /\ RClose(a.p[i], b.p[i], RLit("1e-8"), RAdd(RMul(E.rho, RDiv(RMul(E.l0, E.l0), RMul(M.dt, M.dt))), RAbs(a.p[i])))
Mirrored(o) == ~Core(Z) \/ NearStates(Flip(Clean(M)), Clean(Step(O, FlipE, Flip(Z), M.dt, Flip([Z EXCEPT !.x = WallsAt(Z, M.t)]).x)))
Reverse(z) == LET n == Cardinality(Ids(z))
                  of(f) == [i \in 1..n |-> f[n + 1 - i]] IN [z EXCEPT !.ty = of(z.ty), !.x = of(z.x), !.u = of(z.u), !.p = of(z.p), !.n = of(z.n)]
Renumbered(o) == NearStates(Reverse(Clean(M)), StepWith(Reverse(Z), Reverse([Z EXCEPT !.x = WallsAt(Z, M.t)]).x))

P01_Mutual == If(Mutual)
P02_Types == If(Types)
P02_Frozen == If(Frozen)
P02_Restricted == If(Restricted)
P04_Clock == If(Clock)
P05_Dense == If(Dense)
P06_Falls == If(Falls)
P07_WallsMove == If(WallsMove)
P08_Matrix == If(Matrix)
P10_NonNegative == If(NonNegative)
P12_KeepsDistance == If(KeepsDistance)
P12_Apart == If(Apart)
P21_Mirrored == If(Mirrored)
P21_Renumbered == If(Renumbered)
P22_Cancels == If(Cancels)
=============================================================================
