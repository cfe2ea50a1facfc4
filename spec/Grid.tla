-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The container behind the neighbour search: a grid of blocks, each with  *)
(* room for Cap items.  Positions are integers in quarters of a block, so  *)
(* that borders and interiors of blocks are both among them.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cells,   \* number of blocks along each axis
          cap,     \* room of a block
          cont     \* items stored since the last clear: set of records [id, b], b the block
gvars == <<cells, cap, cont>>

Axes == DOMAIN cells
BlockOfQ(x) == [a \in Axes |-> x[a] \div 4]             \* \div rounds down
InsideQ(x) == \A a \in Axes : BlockOfQ(x)[a] \in 0..(cells[a] - 1)
InBlock(b) == {s \in cont : s.b = b}

(* what Store(x, id) answers *)
Answer(x) == IF ~InsideQ(x) THEN "refused" ELSE IF Cardinality(InBlock(BlockOfQ(x))) >= cap THEN "full" ELSE "stored"

\* an item that is refused, or does not fit, leaves everything as it was
Store(x, id) ==
    /\ cont' = IF Answer(x) = "stored" THEN cont \cup {[id |-> id, b |-> BlockOfQ(x)]} ELSE cont
    /\ UNCHANGED <<cells, cap>>

Clear == cont' = {} /\ UNCHANGED <<cells, cap>>

(* what a walk from x visits *)
Near1(b, c) == \A a \in Axes : b[a] - c[a] \in {-1, 0, 1}
Visits(x) == {s.id : s \in {s \in cont : Near1(s.b, BlockOfQ(x))}}
Walk(x) == InsideQ(x) /\ UNCHANGED gvars

(* several threads store at the same time: res[i] is what the store of ids[i] at x[i] answered *)
Attempts(x, b) == {i \in DOMAIN x : InsideQ(x[i]) /\ BlockOfQ(x[i]) = b}
Smaller(a, b) == IF a < b THEN a ELSE b
ManyAnswers(x, res) ==
    /\ \A i \in DOMAIN x : IF InsideQ(x[i]) THEN res[i] \in {"stored", "full"} ELSE res[i] = "refused"
    /\ \A b \in {BlockOfQ(x[i]) : i \in {i \in DOMAIN x : InsideQ(x[i])}} :
         LET A == Attempts(x, b) IN Cardinality({i \in A : res[i] = "stored"}) = Smaller(Cardinality(A), cap - Cardinality(InBlock(b)))
StoreMany(x, ids, res) ==
    /\ cont' = cont \cup {[id |-> ids[i], b |-> BlockOfQ(x[i])] : i \in {i \in DOMAIN ids : InsideQ(x[i]) /\ res[i] = "stored"}}
    /\ UNCHANGED <<cells, cap>>
=============================================================================
