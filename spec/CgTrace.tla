-------------------------------- MODULE CgTrace -------------------------------
(***************************************************************************)
(* The solver of the specification runs on every recorded system           *)
(* (harness/cg.cpp); when it ends, the recorded outcome is judged.         *)
(***************************************************************************)
EXTENDS Cg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* which system
          c,    \* the solver of the specification
          big   \* the largest residual scale of its iterates
vars == <<l, c, big>>

Sys(i) == LET e == Trace[i]
          IN [A |-> [q \in DOMAIN e.cols |-> [j \in {e.cols[q][m] : m \in DOMAIN e.cols[q]} |-> e.vals[q][CHOOSE m \in DOMAIN e.cols[q] : e.cols[q][m] = j]]],
              b |-> e.b, x0 |-> e.x0, eps |-> e.eps]
Init == /\ l \in 1..Len(Trace)
        /\ LET s == Sys(l) IN c = CgStart(s.A, s.b, s.x0, s.eps) /\ big = AbsOf(s.A, s.b, s.x0)
Iterate == /\ c.ph = "iterating"
           /\ LET s == Sys(l)
                  d == CgIterate(s.A, Len(s.b), c)
              IN c' = d /\ big' = RMax(big, AbsOf(s.A, s.b, d.x))
           /\ UNCHANGED l
Next == Iterate \/ (c.ph # "iterating" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The algorithm of the specification itself *)
Terminates == c.k <= Len(Trace[l].b)
Keeps == \* the residual it carries is the one of its iterate
    LET s == Sys(l) IN ~(FiniteM(s.A) /\ FiniteV(c.x) /\ FiniteV(c.r) /\ RFinite(big)) \/
        RLe(Norm2(Axpy(RInt(-1), Resid(s.A, s.b, c.x), c.r)), RMul(RLit("1e-12"), RMul(RInt(c.k + 1), big)))
Honest == LET s == Sys(l) IN c.ph = "converged" => FiniteV(c.x) /\ Met(s.A, s.b, s.x0, s.eps, c.x, RMul(RLit("1e-12"), RMul(RInt(c.k + 1), big)))
Succeeds == LET s == Sys(l) IN (c.ph = "given up" /\ FiniteV(s.b) /\ FiniteV(s.x0)) => ~(WellConditioned(s.A) /\ RLe(RLit("1e-10"), s.eps))

(* The recorded outcome *)
Returned == Trace[l].how = "ok"
Slack == LET n == Len(Trace[l].b) IN RMul(RLit("1e-11"), RMul(RInt(n + 1), big))
Result ==
    c.ph = "iterating" \/
    LET s == Sys(l)
        e == Trace[l]
    IN CASE e.how = "ok" -> /\ FiniteV(e.x)                                    \* nothing but numbers
                            /\ IF REq(Norm2(Resid(s.A, s.b, s.x0)), R0) THEN e.x = e.x0
                               ELSE Met(s.A, s.b, s.x0, s.eps, e.x, IF RFinite(Slack) THEN Slack ELSE R0)
         [] e.how = "gave up" -> ~(c.k = 0 /\ c.ph = "converged" /\ FiniteM(s.A) /\ FiniteV(s.x0))   \* nothing was to be done
                                 /\ ~(c.ph = "converged" /\ c.k > 0 /\ (WellConditioned(s.A) \/ Sturdy(s.A, c.k)))         \* nothing was in the way
         [] OTHER -> FALSE
(* The small systems are all there. *)
CoversAll == LET T == {i \in 1..Len(Trace) : Trace[i].kind \in {"one", "two", "three"}} IN Cardinality(T) = 75 + 125 * 81 + 8 * 27 * 27
ASSUME CoversAll
Show == [line |-> l, kind |-> Trace[l].kind, how |-> Trace[l].how, phase |-> c.ph, iterations |-> c.k,
         x |-> [i \in DOMAIN Trace[l].x |-> RStr(Trace[l].x[i])], own |-> [i \in DOMAIN c.x |-> RStr(c.x[i])]]
=============================================================================
