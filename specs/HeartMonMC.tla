----------------------------- MODULE HeartMonMC -----------------------------
EXTENDS HeartMon, Sequences, Json, TLC
CONSTANTS Gen, MaxBeats, Maxes, Ages
VARIABLES hist, beats, quiet, ponged
mcvars == <<hmVars, hist, beats, quiet, ponged>>
\* quiet[h]: consecutive beats without a valid answer, counted independently
Init == HMInit /\ max \in Maxes /\ hist = <<>> /\ beats = 0 /\ quiet = [h \in Hearts |-> 0] /\ ponged = {}
Log(r) == hist' = (IF Gen THEN Append(hist, r) ELSE hist)
Pong == \E h \in Hearts \ ponged, a \in Ages :
          /\ beats < MaxBeats /\ \A o \in ponged : o < h
          /\ PongEff(h, a % 3) /\ ponged' = ponged \cup {h} /\ UNCHANGED <<beats, quiet>> /\ Log([k |-> "pong", h |-> h, a |-> a])
Beat == /\ beats < MaxBeats /\ quiet' = [h \in Hearts |-> IF h \in answered THEN 0 ELSE quiet[h] + 1]
        /\ BeatEff /\ beats' = beats + 1 /\ ponged' = {} /\ Log([k |-> "beat"])
Next == Pong \/ Beat \/ (beats = MaxBeats /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
\* a heart is declared stopped exactly when it has been silent for more than max beats, and never otherwise
StopExact == [][\A h \in Hearts : (h \in beating /\ h \notin beating') <=> (h \in beating /\ beats' # beats /\ quiet'[h] = max + 1)]_mcvars
NewExact == [][\A h \in Hearts : (h \notin beating /\ h \in beating') <=> (h \notin beating /\ beats' # beats /\ quiet'[h] = 0)]_mcvars
Bound == \A h \in Hearts : misses[h] <= max
Emit == (Gen /\ beats = MaxBeats) => PrintT("SCRIPT " \o ToJson([max |-> max, ops |-> hist]) \o " TPIRCS")
=============================================================================
