--------------------------- MODULE TraceTraining ----------------------------
(* Checks that what was recorded of a real training run is a behaviour of TrainObs. *)
EXTENDS TrainObs, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, labels, hits, wins
tvars == << ovars, l, labels, hits, wins >>

Match(what, want, got) ==
    IF want = got THEN TRUE
    ELSE PrintT(<< "MISMATCH", l, what, "specified", want, "observed", got >>) /\ FALSE

\* labels[p]: position of the label of point p; wins[p]: prediction for point p (fixed in these runs)
Begin(e) == ObsStart(Len(e.labels), e.B) /\ labels' = e.labels /\ wins' = e.wins /\ hits' = 0
Hold == UNCHANGED << labels, wins, hits >>
EventAct(e) ==
    CASE e.ev = "begin"  -> Begin(e)
      [] e.ev = "call"   -> CallBegin /\ Hold
      [] e.ev = "avail"  -> AvailEnd(e.a = 1) /\ Hold
      [] e.ev = "size"   -> SizeEnd /\ Hold
      [] e.ev = "draw"   -> DrawEnd(e.p) /\ Hold
      [] e.ev = "fi"     -> Enter(e.s, e.p) /\ Hold
      [] e.ev = "fo"     -> Go(e.s, e.p, 2) /\ Hold
      [] e.ev = "bo"     -> /\ Go(e.s, e.p, 3)
                            /\ Match("label used", labels[e.p], e.t)
                            /\ hits' = IF labels[e.p] = wins[e.p] THEN hits + 1 ELSE hits
                            /\ UNCHANGED << labels, wins >>
      [] e.ev = "bi"     -> Go(e.s, e.p, 4) /\ Hold
      [] e.ev = "update" -> Update /\ Hold
      [] e.ev = "reset"  -> SourceReset /\ hits' = 0 /\ UNCHANGED << labels, wins >>
      \* the end of runEpoch with its result, or of train with the number of epochs
      [] e.ev = "return" -> EpochDone /\ Match("successes", hits, e.hits) /\ Hold
      [] e.ev = "finish" -> /\ Match("epochs", e.E, epoch)
                            /\ src = 1 /\ Quiet /\ drawn = {} /\ UNCHANGED ovars /\ Hold
      \* training ended with an exception; points e.bad cannot be processed
      [] e.ev = "failed" -> Failed({e.bad[i] : i \in 1..Len(e.bad)}) /\ Hold
      [] OTHER -> Match("event", "one of the specification", e.ev)

TraceInit == ObsInit(0, 1) /\ l = 1 /\ labels = <<>> /\ wins = <<>> /\ hits = 0
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ EventAct(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
