------------------------------- MODULE ParFor -------------------------------
(***************************************************************************)
(* A parallel loop: its iterations run in any interleaving of their memory *)
(* accesses.  A loop whose iterations have footprints that satisfy         *)
(* RaceFree leaves the same memory as the sequential loop, whatever the    *)
(* interleaving - hence for every number of threads and every way of       *)
(* handing iterations to threads.  TLC shows this for all loops of a few   *)
(* iterations (ParForMC.cfg) and that the condition is needed.             *)
(* ParTrace.tla checks the condition on the footprints recorded from the   *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* R[i], W[i]: the locations iteration i reads and writes. *)
RaceFree(R, W) == \A i \in DOMAIN R : W[i] # {} =>
                      \A j \in DOMAIN R \ {i} : W[i] \cap R[j] = {} /\ W[i] \cap W[j] = {}

CONSTANTS Iters,     \* number of iterations
          Locs,      \* number of locations
          Ops,       \* accesses of an iteration at most
          Checked    \* whether only race-free loops are considered

I == 1..Iters
L == 1..Locs
Op == [w : BOOLEAN, at : L]
Programs == UNION {[1..k -> Op] : k \in 0..Ops}
Touched(p, w) == {p[k].at : k \in {k \in DOMAIN p : p[k].w = w}}

VARIABLES prog,   \* prog[i]: the accesses of iteration i, in order
          mem,    \* mem[l]: what the location holds
          pc,     \* accesses iteration i has made
          acc     \* acc[i]: everything it has read so far: what it writes depends on all of it
vars == <<prog, mem, pc, acc>>

Empty == [l \in L |-> <<0, <<>>>>]
Init == /\ prog \in [I -> Programs]
        /\ Checked => RaceFree([i \in I |-> Touched(prog[i], FALSE)], [i \in I |-> Touched(prog[i], TRUE)])
        /\ mem = Empty /\ pc = [i \in I |-> 0] /\ acc = [i \in I |-> <<>>]

Do(p, i, k, m, a) == \* access k of iteration i on memory m, with what it has read in a
    LET o == p[k] IN IF o.w THEN [m |-> [m EXCEPT ![o.at] = <<i, k, a>>], a |-> a]
                     ELSE [m |-> m, a |-> Append(a, m[o.at])]
Access(i) == /\ pc[i] < Len(prog[i])
             /\ LET r == Do(prog[i], i, pc[i] + 1, mem, acc[i])
                IN mem' = r.m /\ acc' = [acc EXCEPT ![i] = r.a]
             /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ UNCHANGED prog
Next == \E i \in I : Access(i)
Spec == Init /\ [][Next]_vars

RECURSIVE Run(_, _, _, _, _), Loop(_, _)
Run(p, i, k, m, a) == IF k > Len(p) THEN m ELSE LET r == Do(p, i, k, m, a) IN Run(p, i, k + 1, r.m, r.a)
Loop(i, m) == IF i > Iters THEN m ELSE Loop(i + 1, Run(prog[i], i, 1, m, <<>>))

Deterministic == (\A i \in I : pc[i] = Len(prog[i])) => mem = Loop(1, Empty)
=============================================================================
