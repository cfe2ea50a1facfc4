-------------------------------- MODULE GcTrace -------------------------------
(* The gradient correction matrices the code computes (harness/gcinv.cpp),   *)
(* against Mps.tla: the inverse if there is one, isotropic otherwise.        *)
EXTENDS Mps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l \in 1..Len(Trace)
Next == UNCHANGED l
Spec == Init /\ [][Next]_l

Opt(e) == [dim |-> e.dim]
MaxAbs(M) == RMaxOf([q \in (DOMAIN M) \X (DOMAIN M) |-> RAbs(M[q[1]][q[2]])])
Prod(A, B) == [a \in DOMAIN A |-> [b \in DOMAIN A |-> RSum([c \in DOMAIN A |-> RMul(A[a][c], B[c][b])])]]
MatClose(A, B, tol, scale) == \A a, b \in DOMAIN A : RClose(A[a][b], B[a][b], tol, scale)
Size(e) == LET m == MaxAbs(e.m) IN IF e.dim = 2 THEN RMul(m, m) ELSE Cube(m)

(* exact: all entries are small integers, so determinants have no rounding error *)
Singular(e) == REq(Det(Opt(e), e.m), R0)
Undecided(e) == ~e.exact /\ RLe(RAbs(Det(Opt(e), e.m)), RMul(RLit("1e-13"), Size(e)))
IsFallback(e) == e.inv = Isotropic(Opt(e), e.val)
TrueInverse(e) ==
    LET s == RMul(MaxAbs(e.m), MaxAbs(e.inv))
    IN /\ MatClose(Prod(e.m, e.inv), Isotropic(Opt(e), R1), RLit("1e-11"), RMax(R1, s))
       /\ MatClose(e.inv, Inverse(Opt(e), e.m), RLit("1e-9"), RMul(MaxAbs(e.inv), RMax(R1, RDiv(Size(e), RAbs(Det(Opt(e), e.m))))))
(* the operator of the specification is itself an inverse *)
SpecInverse(e) == MatClose(Prod(e.m, Inverse(Opt(e), e.m)), Isotropic(Opt(e), R1), RLit("1e-11"), RMax(R1, RMul(MaxAbs(e.m), MaxAbs(Inverse(Opt(e), e.m)))))

Right == LET e == Trace[l] IN Undecided(e) \/ IF Singular(e) THEN IsFallback(e) ELSE TrueInverse(e)
Sound == LET e == Trace[l] IN Undecided(e) \/ Singular(e) \/ SpecInverse(e)
(* Entries \X ... : the exact part of the trace is the whole set of matrices with entries in these *)
Covers == LET exact == {i \in 1..Len(Trace) : Trace[i].exact} IN Cardinality({Trace[i].m : i \in exact}) = Cardinality(exact)
ASSUME Covers
Show == [line |-> l, m |-> [a \in DOMAIN Trace[l].m |-> [b \in DOMAIN Trace[l].m |-> RStr(Trace[l].m[a][b])]],
         inv |-> [a \in DOMAIN Trace[l].m |-> [b \in DOMAIN Trace[l].m |-> RStr(Trace[l].inv[a][b])]]]
=============================================================================
