------------------------------ MODULE HeartMon ------------------------------
(* The heart monitor: pings every engine once per period, counts answers, and   *)
(* tells the hub which hearts started and which stopped beating.                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Hearts
VARIABLES max,      \* tolerated consecutive misses
          beating,  \* hearts announced as beating
          answered, \* hearts that answered the current or the previous ping since the last beat
          misses    \* heart -> consecutive beats missed
hmVars == <<max, beating, answered, misses>>
HMInit == beating = {} /\ answered = {} /\ misses = [h \in Hearts |-> 0]

\* age 0: answers the latest ping, 1: the one before, 2: anything else
PongEff(h, age) == /\ answered' = IF age <= 1 THEN answered \cup {h} ELSE answered
                   /\ UNCHANGED <<max, beating, misses>>
NewNow == answered \ beating
Missed == beating \ answered
StoppedNow == { h \in Missed : misses[h] + 1 > max }
BeatEff == /\ beating' = (beating \cup answered) \ StoppedNow
           /\ misses' = [h \in Hearts |-> IF h \in Missed /\ h \notin StoppedNow THEN misses[h] + 1 ELSE 0]
           /\ answered' = {} /\ UNCHANGED max
=============================================================================
