--------------------------------- MODULE App ---------------------------------
(***************************************************************************)
(* The application: read the input or reject it, then advance the          *)
(* simulation and write frames on schedule until the end time, or until a  *)
(* step fails or a frame cannot be written.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real

VARIABLES cfg,     \* [ok, start, end, interval, blocked]: ok is FALSE for an input that has to be rejected;
                   \* blocked: numbers of frames that cannot be written
          phase,   \* "load" "run" "failed" "rejected" "done"
          time,    \* the clock of the simulation (starts at 0)
          step,    \* steps so far
          due,     \* time of the next frame, and its number counted from 1
          frames,  \* frames written: [no, step, time, before], before: the clock one step earlier
          prev     \* the clock before the last step (history, for the invariants)
avars == <<cfg, phase, time, step, due, frames, prev>>

(* how many intervals begin before t; a quotient that is whole but for rounding counts as whole *)
Intervals(t) == LET q == RDiv(t, cfg.interval)
                    c == RCeil(q)
                IN IF RLe(t, R0) THEN 0 ELSE IF RLe(RSub(q, RInt(c - 1)), RMul(RLit("1e-9"), RInt(c))) THEN c - 1 ELSE c
Offset == Intervals(cfg.start)
EndCount == Intervals(RSub(cfg.end, cfg.start))
Frame(k) == [no |-> Offset + k, step |-> step, time |-> time, before |-> prev]
Running == phase = "run" /\ due.k <= EndCount

AInit == /\ phase = "load" /\ time = R0 /\ step = 0 /\ prev = R0
         /\ due = [t |-> R0, k |-> 0] /\ frames = <<>>
Reject == phase = "load" /\ (~cfg.ok \/ Offset \in cfg.blocked) /\ phase' = "rejected" /\ UNCHANGED <<cfg, time, step, due, frames, prev>>
Load == /\ phase = "load" /\ cfg.ok /\ Offset \notin cfg.blocked /\ phase' = "run"
        /\ frames' = <<Frame(0)>> /\ due' = [t |-> cfg.interval, k |-> 1]
        /\ UNCHANGED <<cfg, time, step, prev>>
Advance(t) == \* one step, after which the clock shows t
        /\ Running /\ RLt(time, due.t)
        /\ time' = t /\ step' = step + 1 /\ prev' = time
        /\ UNCHANGED <<cfg, phase, due, frames>>
Fail == /\ Running /\ RLt(time, due.t)
        /\ phase' = "failed" /\ UNCHANGED <<cfg, time, step, due, frames, prev>>
Lose == /\ Running /\ ~RLt(time, due.t) /\ (Offset + due.k) \in cfg.blocked
        /\ phase' = "failed" /\ UNCHANGED <<cfg, time, step, due, frames, prev>>
Output == /\ Running /\ ~RLt(time, due.t) /\ (Offset + due.k) \notin cfg.blocked
          /\ frames' = Append(frames, Frame(due.k))
          /\ due' = [t |-> RAdd(due.t, cfg.interval), k |-> due.k + 1]
          /\ UNCHANGED <<cfg, phase, time, step, prev>>
Finish == /\ (phase = "run" /\ due.k > EndCount) \/ phase = "failed"
          /\ phase' = (IF phase = "run" THEN "done" ELSE "stopped")
          /\ UNCHANGED <<cfg, time, step, due, frames, prev>>
Ended == phase \in {"rejected", "done", "stopped"}

(* what the schedule promises *)
Consecutive == \A i \in DOMAIN frames : frames[i].no = Offset + i - 1
OnTime == \A i \in DOMAIN frames : i = 1 \/ RLe(RMul(RInt(i - 1), cfg.interval), frames[i].time)
Prompt == \A i \in DOMAIN frames : i = 1 \/ RLt(frames[i].before, RMul(RInt(i - 1), cfg.interval))   \* the first step that reached it
Initial == phase # "load" /\ phase # "rejected" => frames # <<>> /\ frames[1].step = 0
Nothing == phase = "rejected" => frames = <<>>
Complete == phase = "done" => Len(frames) = EndCount + 1
NotBeyond == Len(frames) <= EndCount + 1
Partial == phase \in {"failed", "stopped"} => Len(frames) = due.k /\ (RLt(time, due.t) \/ (Offset + due.k) \in cfg.blocked)
Unwritten == \A i \in DOMAIN frames : frames[i].no \notin cfg.blocked
=============================================================================
