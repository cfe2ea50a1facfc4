----------------------------------- MODULE Cg ---------------------------------
(***************************************************************************)
(* The pressure solver: conjugate gradients from a given guess, at most as *)
(* many iterations as there are unknowns, as a state machine; and what a   *)
(* caller may rely on.                                                     *)
(*   A: rows as functions from columns to reals; b, x0: tuples of reals.   *)
(***************************************************************************)
EXTENDS Mps

Resid(A, b, x) == Axpy(RInt(-1), MatMul(A, x), b)
Norm2(v) == RSqrt(DotN(v, v))

(* A state of the algorithm: k iterations done. *)
CgStart(A, b, x0, eps) ==
    LET r == Resid(A, b, x0)
        rr == TLCEval(DotN(r, r))
    IN [k |-> 0, x |-> x0, r |-> r, p |-> r, rr |-> rr, goal |-> RMul(RMul(rr, eps), eps), ph |-> IF REq(rr, R0) THEN "converged" ELSE "iterating"]
CgIterate(A, n, c) ==
    LET Ap == MatMul(A, c.p)
        al == TLCEval(RDiv(c.rr, DotN(c.p, Ap)))
        x2 == Axpy(al, c.p, c.x)
        r2 == Axpy(RNeg(al), Ap, c.r)
        q2 == TLCEval(DotN(r2, r2))
        done == RLt(q2, c.goal)
    IN [c EXCEPT !.k = @ + 1, !.x = x2, !.r = r2, !.rr = q2,
                 !.p = IF done THEN @ ELSE Axpy(TLCEval(RDiv(q2, c.rr)), c.p, r2),
                 !.ph = IF done THEN "converged" ELSE IF c.k + 1 >= n THEN "given up" ELSE "iterating"]

(* What every solver of such systems is measured by. *)
FiniteV(v) == \A i \in DOMAIN v : RFinite(v[i])
AbsOf(A, b, x) == Norm2(TLCEval([i \in DOMAIN b |-> RAdd(RAbs(b[i]), RSum([j \in DOMAIN A[i] |-> RAbs(RMul(A[i][j], x[j]))]))]))
Met(A, b, x0, eps, x, slack) == RLe(Norm2(Resid(A, b, x)), RAdd(RMul(RMul(eps, RLit("1.000001")), Norm2(Resid(A, b, x0))), slack))

Symmetric(A) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : (i \in DOMAIN A[j] /\ A[j][i] = A[i][j]) \/ REq(A[i][j], R0)
FiniteM(A) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : RFinite(A[i][j])
(* Well conditioned and definite by Gershgorin: all eigenvalues lie between 1/2 and 3/2 of diagonal entries *)
(* that are of one sign and of one size.                                                                    *)
WellConditioned(A) ==
    /\ FiniteM(A) /\ Symmetric(A)
    /\ \A i \in DOMAIN A : i \in DOMAIN A[i]
    /\ \/ \A i \in DOMAIN A : RLt(R0, A[i][i])
       \/ \A i \in DOMAIN A : RLt(A[i][i], R0)
    /\ LET d == [i \in DOMAIN A |-> RAbs(A[i][i])] IN
       /\ \A i, j \in DOMAIN A : RLe(d[i], RMul(RInt(10), d[j]))
       /\ \A i \in DOMAIN A : RLe(RMul(RInt(2), RSum([j \in DOMAIN A[i] \ {i} |-> RAbs(A[i][j])])), d[i])
(* Definite by strict dominance of the diagonal, of a condition number that doubles take easily; the solver *)
(* of the specification needs much fewer iterations than there are unknowns.                               *)
Sturdy(A, k) ==
    /\ 3 * k <= 2 * Len(A)
    /\ FiniteM(A) /\ Symmetric(A)
    /\ \A i \in DOMAIN A : i \in DOMAIN A[i]
    /\ \/ \A i \in DOMAIN A : RLt(R0, A[i][i])
       \/ \A i \in DOMAIN A : RLt(A[i][i], R0)
    /\ LET off == TLCEval([i \in DOMAIN A |-> RSum([j \in DOMAIN A[i] \ {i} |-> RAbs(A[i][j])])])
           lo == TLCEval([i \in DOMAIN A |-> RSub(RAbs(A[i][i]), off[i])])
           hi == TLCEval(RMaxOf([i \in DOMAIN A |-> RAdd(RAbs(A[i][i]), off[i])]))
       IN \A i \in DOMAIN A : RLe(hi, RMul(RInt(1000), lo[i]))
=============================================================================
