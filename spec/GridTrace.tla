------------------------------ MODULE GridTrace ------------------------------
(* Checks what the real grid answered (harness/grid.cpp) against Grid.tla. *)
EXTENDS Grid, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Last == Len(Trace)
Firsts == {i \in 1..Last : Trace[i].ev = "grid"}

VARIABLES l, bad, cnt
tvars == <<gvars, l, bad, cnt>>

Ev == Trace[l]
In(e) == l <= Last /\ Ev.ev = e
Say(what, ok) == IF ok THEN {} ELSE {<<"P15", what, l>>}

TInit == /\ l \in Firsts /\ bad = {} /\ cnt = [first |-> l, ops |-> 0, walks |-> 0, items |-> 0]
         /\ cells = Trace[l].cells /\ cap = Trace[l].cap /\ cont = {}
Open == /\ l = cnt.first /\ cnt.first > 0 /\ In("grid")
        /\ bad' = Say("room of a block", Ev.max = cap)
        /\ UNCHANGED <<gvars, cnt>> /\ l' = l + 1
TStore == /\ In("store") /\ Store(Ev.x, Ev.id)
          /\ bad' = bad \cup Say("store answers " \o Ev.res, Ev.res = Answer(Ev.x))
          /\ l' = l + 1 /\ cnt' = [cnt EXCEPT !.ops = @ + 1]
(* many stored at once by several threads *)
TMany == /\ In("many") /\ StoreMany(Ev.x, Ev.ids, Ev.res)
         /\ bad' = bad \cup Say("storing in parallel", ManyAnswers(Ev.x, Ev.res))
         /\ l' = l + 1 /\ cnt' = [cnt EXCEPT !.ops = @ + Len(Ev.ids)]
TClear == In("clear") /\ Clear /\ l' = l + 1 /\ bad' = bad /\ cnt' = [cnt EXCEPT !.ops = @ + 1]
TWalk == /\ In("walk") /\ Walk(Ev.x)
         /\ LET got == {Ev.ids[i] : i \in DOMAIN Ev.ids}
            IN bad' = bad \cup Say("item not visited", Visits(Ev.x) \subseteq got)
                          \cup Say("item visited that is not there or not near", got \subseteq Visits(Ev.x))
                          \cup Say("item visited twice", Cardinality(got) = Len(Ev.ids))
                          \cup Say("the walk does not end", Ev.ended)
         /\ l' = l + 1 /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.walks = @ + 1, !.items = @ + Len(Ev.ids)]
TCounts == /\ In("counts")
           /\ bad' = bad \cup Say("number of items in a block", \A i \in DOMAIN Ev.of : Ev.of[i][2] = Cardinality(InBlock(Ev.of[i][1])))
           /\ UNCHANGED <<gvars, cnt>> /\ l' = l + 1
TCrash == In("crash") /\ bad' = bad \cup Say("the program " \o Ev.how, FALSE) /\ UNCHANGED <<gvars, cnt>> /\ l' = l + 1

Over == IF l > Last THEN TRUE ELSE l # cnt.first /\ Trace[l].ev = "grid"
TFinish == /\ cnt.first > 0 /\ Over
           /\ PrintT(<<"DONE", Trace[cnt.first].k, cnt.ops, cnt.walks, cnt.items>>)
           /\ cnt' = [cnt EXCEPT !.first = 0] /\ UNCHANGED <<gvars, l, bad>>
TIdle == cnt.first = 0 /\ UNCHANGED tvars
TNext == \/ Open \/ (cnt.first > 0 /\ ~Over /\ (TStore \/ TMany \/ TClear \/ TWalk \/ TCounts \/ TCrash)) \/ TFinish \/ TIdle
TSpec == TInit /\ [][TNext]_tvars
NoViolation == bad = {}
Show == [line |-> l, scenario |-> IF l > 1 THEN Trace[l - 1].k ELSE 1, event |-> IF l > 1 THEN Trace[l - 1].ev ELSE "",
         next |-> IF l <= Last THEN Trace[l].ev ELSE "end", bad |-> bad]
=============================================================================
