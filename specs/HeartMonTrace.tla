---------------------------- MODULE HeartMonTrace ----------------------------
EXTENDS HeartMon, Json, TLC, Sequences
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, l, viol
tvars == <<hmVars, ti, l, viol>>
Ev == Traces[ti].ev[l]
Rng(s) == { s[i] : i \in 1..Len(s) }
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ max = Traces[ti].cfg.max /\ HMInit
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
DoPong == PongEff(Ev.h, Ev.age) /\ Add(T(Ev.quiet, "H06", "announcement outside a beat"))
DoBeat == /\ Add(T(Ev.ping = 1, "H06", "not exactly one ping per period")
               \o T(Len(Ev.new) = Cardinality(Rng(Ev.new)) /\ Rng(Ev.new) = NewNow, "H06", "wrong hearts announced as new")
               \o T(Len(Ev.stopped) = Cardinality(Rng(Ev.stopped)) /\ Rng(Ev.stopped) = StoppedNow, "H06", "wrong hearts announced as stopped"))
          /\ BeatEff
DoStart == UNCHANGED hmVars /\ Add(T(Ev.period = Traces[ti].cfg.period, "H06", "wrong period"))
Step == CASE Ev.k = "pong" -> DoPong [] Ev.k = "beat" -> DoBeat [] Ev.k = "start" -> DoStart
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o Join(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE Join(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<hmVars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
