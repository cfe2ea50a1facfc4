------------------------------- MODULE GridWalk ------------------------------
(***************************************************************************)
(* The iterator that walks the 3^Dim blocks around a position, as the code *)
(* does it: one number encodes item and block, empty and non-existing      *)
(* blocks are skipped.  Checked here, for every content of a small grid    *)
(* and every starting block: the walk ends and visits exactly what         *)
(* Grid.tla says, each item once, and reads no block outside the grid.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cells,   \* blocks per axis, e.g. <<3, 4>>
          MaxCount \* items per block
VARIABLES count,   \* count[b]: items in block b
          at,      \* the block of the starting position
          index, visited, readOutside
wvars == <<count, at, index, visited, readOutside>>

Dim == Len(Cells)
Blocks == {b \in [1..Dim -> 0..9] : \A a \in 1..Dim : b[a] < Cells[a]}
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
LAST == Pow(3, Dim)
RADIX == LAST + 1
(* the n-th block around at: the last axis varies fastest *)
NthBlock(n) == [a \in 1..Dim |-> (at[a] - 1) + ((n \div Pow(3, Dim - a)) % 3)]
Exists(b) == b \in Blocks
CountAt(b) == IF Exists(b) THEN count[b] ELSE 0

(* the first block that can exist: skip the lower neighbours along an axis whose block is the first *)
RECURSIVE Start(_)
Start(a) == IF a > Dim THEN 0 ELSE (IF at[a] = 0 THEN Pow(3, Dim - a) ELSE 0) + Start(a + 1)

NextBlock(n) == \* next existing block with items after the n-th
    LET C == {m \in (n + 1)..(LAST - 1) : Exists(NthBlock(m)) /\ count[NthBlock(m)] > 0}
    IN IF C = {} THEN LAST ELSE CHOOSE m \in C : \A k \in C : m <= k
Increment(i) ==
    LET n == i % RADIX
        l == i \div RADIX
    IN IF l + 1 >= CountAt(NthBlock(n)) THEN NextBlock(n) ELSE i + RADIX

WInit == /\ count \in [Blocks -> 0..MaxCount] /\ at \in Blocks
         /\ LET s == Start(1) IN
            /\ index = IF CountAt(NthBlock(s)) = 0 THEN Increment(s) ELSE s
            /\ readOutside = ~Exists(NthBlock(s))
         /\ visited = {}
WNext == /\ index # LAST
         /\ LET b == NthBlock(index % RADIX)
                item == <<b, index \div RADIX>>
            IN /\ readOutside' = (readOutside \/ ~Exists(b) \/ item[2] >= CountAt(b) \/ item \in visited)
               /\ visited' = visited \cup {item}
         /\ index' = Increment(index)
         /\ UNCHANGED <<count, at>>
WSpec == WInit /\ [][WNext]_wvars /\ WF_wvars(WNext)

Due == {<<b, l>> \in Blocks \X (0..(MaxCount - 1)) : l < count[b] /\ \A a \in 1..Dim : b[a] - at[a] \in {-1, 0, 1}}
NothingStrange == ~readOutside
Complete == index = LAST => visited = Due
Ends == <>(index = LAST)
Forward == [][index' = LAST \/ (index' % RADIX) > (index % RADIX) \/ index' = index + RADIX]_wvars
=============================================================================
