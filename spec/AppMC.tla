-------------------------------- MODULE AppMC --------------------------------
(* App.tla for every small schedule, every sequence of step lengths, every moment of failure and every frame that cannot be written. *)
EXTENDS App
CONSTANTS Starts, Ends, Gaps, Dts, Blocked
MInit == AInit /\ cfg \in [ok : BOOLEAN, start : {RInt(k) : k \in Starts}, end : {RInt(k) : k \in Ends}, interval : {RInt(k) : k \in Gaps}, blocked : {{b} : b \in Blocked} \cup {{}}]
MNext == Reject \/ Load \/ (\E d \in Dts : Advance(RAdd(time, RInt(d)))) \/ Fail \/ Lose \/ Output \/ Finish
MSpec == MInit /\ [][MNext]_avars /\ WF_avars(MNext)
Ends1 == <>Ended
(* frames are never taken back or changed; nothing is written after a failure *)
Growing == [][/\ Len(frames') >= Len(frames) /\ SubSeq(frames', 1, Len(frames)) = frames
              /\ (phase \in {"failed", "stopped", "rejected", "done"} => frames' = frames)]_avars
=============================================================================
