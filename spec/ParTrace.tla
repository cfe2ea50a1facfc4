------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* The memory the threads of the implementation's parallel regions touched *)
(* between two barriers, one thread per iteration, recorded by             *)
(* harness/parsim.cpp.  Bytes touched by the same threads in the same way  *)
(* form one location.  Accesses under a lock are not recorded.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

PF == INSTANCE ParFor WITH Iters <- 1, Locs <- 1, Ops <- 0, Checked <- TRUE, prog <- <<>>, mem <- <<>>, pc <- <<>>, acc <- <<>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Size == Len(Trace)
Chunk == 1 + Size \div 64
Range(q) == {q[k] : k \in DOMAIN q}

VARIABLE l
Init == l = 0
Next == \/ l = 0 /\ l' \in {k \in 1..Size : (k - 1) % Chunk = 0}
        \/ l > 0 /\ l < Size /\ l % Chunk # 0 /\ l' = l + 1

Region == Trace[l]
Foot(e) == LET R == TLCEval([c \in DOMAIN e.cls |-> Range(e.cls[c].r)])
               W == TLCEval([c \in DOMAIN e.cls |-> Range(e.cls[c].w)])
               T == UNION {R[c] \cup W[c] : c \in DOMAIN e.cls}
           IN [r |-> TLCEval([i \in T |-> {c \in DOMAIN R : i \in R[c]}]), w |-> TLCEval([i \in T |-> {c \in DOMAIN W : i \in W[c]}])]
NoRace == l > 0 => LET f == Foot(Region) IN PF!RaceFree(f.r, f.w)

Show == [line |-> l, site |-> Region.site, scenario |-> Region.k, region |-> Region.region,
         shared |-> {<<Region.cls[c].r, Region.cls[c].w, Region.cls[c].bytes>> : c \in
                        {c \in DOMAIN Region.cls : Range(Region.cls[c].w) # {} /\ Cardinality(Range(Region.cls[c].w) \cup Range(Region.cls[c].r)) > 1}}]
=============================================================================
