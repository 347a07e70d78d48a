----------------------------- MODULE ReaderLaws -----------------------------
(* All histories of the reader on small files.  hist is what was asked and got. *)
EXTENDS Reader, Json
CONSTANTS N, Steps, SkipOnRefusal      \* SkipOnRefusal: negative control, a refused request moves the reader
VARIABLE hist
lvars == << vars, hist >>
Img(i) == [p |-> i, l |-> i]
LInit == /\ file = [i \in 1..N |-> Img(i-1)] /\ pos = 0 /\ out = "ok" /\ res = <<>> /\ hist = <<>>
         /\ src = [file |-> <<>>, from |-> 0, pos |-> 0]
Log(op) == hist' = Append(hist, [op |-> op, got |-> IF out' = "ok" THEN res'[1].p ELSE -1])
LGet(i) == IF SkipOnRefusal /\ i >= Count
           THEN pos' = i /\ out' = "refused" /\ res' = <<>> /\ UNCHANGED << file, src >>
           ELSE Get(i)
LNext == /\ Len(hist) < Steps
         /\ \/ NextImage /\ Log(-1)
            \/ \E i \in 0..N : LGet(i) /\ Log(i)
LSpec == LInit /\ [][LNext]_lvars
\* nextImage is the image after the one delivered last, whatever was asked in between
Last(h) == LET k == {i \in 1..Len(h) : h[i].got >= 0}
           IN  IF k = {} THEN -1 ELSE h[CHOOSE i \in k : \A j \in k : j <= i].got
InOrder == \A i \in 1..Len(hist) :
             LET before == Last(SubSeq(hist, 1, i-1))
             IN  /\ hist[i].op = -1 => hist[i].got = (IF before + 1 < N THEN before + 1 ELSE -1)
                 /\ hist[i].op >= 0 => hist[i].got = (IF hist[i].op < N THEN hist[i].op ELSE -1)
Emit == Len(hist) = Steps => PrintT("HIST " \o ToJson([i \in 1..Len(hist) |-> hist[i].op]))
=============================================================================
