------------------------------- MODULE GridGen -------------------------------
(***************************************************************************)
(* Small grids, explored by TLC: invariants of the container, and random   *)
(* behaviours (-simulate) that are replayed on the real class.             *)
(***************************************************************************)
EXTENDS Grid, Json, Randomization

CONSTANTS Shapes,   \* possible shapes: sequences of blocks per axis
          Room,     \* possible capacities
          Items,    \* identifiers
          Offs,     \* offsets within a block, in quarters
          MaxOps    \* operations per behaviour
VARIABLES ops       \* operations so far (history)

MaxCells == CHOOSE m \in {cells[a] : a \in Axes} : \A a \in Axes : cells[a] <= m
Positions == [Axes -> UNION {{4 * b + o : o \in Offs} : b \in -1..MaxCells}]

GInit == /\ cells \in Shapes /\ cap \in Room /\ cont = {} /\ ops = <<>>
Used == {s.id : s \in cont}
GStore == \E x \in Positions, id \in Items \ Used :
            Store(x, id) /\ ops' = Append(ops, [op |-> "store", x |-> x, id |-> id])
GClear == ops # <<>> /\ Clear /\ ops' = Append(ops, [op |-> "clear"])
GWalk == \E x \in Positions : Walk(x) /\ ops' = Append(ops, [op |-> "walk", x |-> x])
GNext == Len(ops) < MaxOps /\ (GStore \/ GWalk \/ GClear)
GSpec == GInit /\ [][GNext]_<<gvars, ops>>

(* invariants of the container *)
Fits == \A s \in cont : Cardinality(InBlock(s.b)) <= cap
Placed == \A s \in cont : \A a \in Axes : s.b[a] \in 0..(cells[a] - 1)
Once == \A s, r \in cont : s.id = r.id => s = r
(* every item is visited from its own block, and a walk visits nothing that is two blocks away *)
Found == \A s \in cont : s.id \in Visits([a \in Axes |-> 4 * s.b[a] + 1])
Local == \A x \in Positions : InsideQ(x) => \A s \in cont : s.id \in Visits(x) => \A a \in Axes : s.b[a] - BlockOfQ(x)[a] \in {-1, 0, 1}
View == gvars

(* random behaviours for the replay: one operation chosen at random per step *)
RStore == \E x \in RandomSubset(1, Positions), id \in RandomSubset(1, Items \ Used) :
            Store(x, id) /\ ops' = Append(ops, [op |-> "store", x |-> x, id |-> id])
RWalk == \E x \in RandomSubset(1, {x \in Positions : InsideQ(x)}) : Walk(x) /\ ops' = Append(ops, [op |-> "walk", x |-> x])
RNext == Len(ops) < MaxOps /\
         LET k == RandomElement(1..20) IN IF k = 1 THEN GClear ELSE IF k <= 5 THEN RWalk ELSE RStore
RSpec == GInit /\ [][RNext]_<<gvars, ops>>
Behaviour == Len(ops) < MaxOps \/ PrintT(ToJson([cells |-> cells, cap |-> cap, ops |-> ops]))
=============================================================================
