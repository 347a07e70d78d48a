----------------------------- MODULE TraceReader ----------------------------
(* Checks that a recorded run of the reader or the data source is a behaviour of Reader. *)
EXTENDS Reader, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == << vars, l >>
Match(what, want, got) == IF want = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "specified", want, "observed", got>>) /\ FALSE

\* An image as it is delivered: shape, pixels row by row, label
Images(e) == [i \in 1..Len(e.imgs) |-> [d |-> << e.h, e.w, 1 >>, p |-> e.imgs[i].p, l |-> e.imgs[i].l]]

\* pairs of files that do not belong together
BadOpen(e) == Match("accepted", 0, e.r.accepted) /\ UNCHANGED vars
\* files that do not hold all that their headers say, or whose headers make no sense: they are not accepted,
\* or an image that is not completely in them is not delivered.  The first "whole" images are.
Short(e) == LET good == e.r.accepted = 1
                Want(i) == IF e.ask[i] >= 0 /\ e.ask[i] < e.whole THEN << "image", e.imgs[e.ask[i] + 1].p, e.imgs[e.ask[i] + 1].l >> ELSE << "refused" >>
                Got(i)  == IF e.r.got[i].k = 1 THEN << "image", e.r.got[i].p, e.r.got[i].l >> ELSE << "refused" >>
            IN  /\ Match("refused by an exception or assertion, if at all", 1, e.r.clean)
                /\ e.complete = 1 => Match("accepted", 1, e.r.accepted)
                /\ good => \A i \in 1..Len(e.ask) :
                       \* (what nextImage does after a refusal is left open, but not images that do not exist)
                       IF e.ask[i] >= 0 THEN Match(<< "image", e.ask[i] >>, Want(i), Got(i))
                       ELSE Match("an image of the file or nothing", TRUE,
                                  Got(i) = << "refused" >> \/ \E j \in 1..e.whole : Got(i) = << "image", e.imgs[j].p, e.imgs[j].l >>)
                /\ UNCHANGED vars
\* large sparse files: position (from 1) and value of the pixels that are not zero
Sparse(e) == /\ \A i \in 1..Len(e.ask) :
                  /\ Match(<<"image", e.ask[i]>>, e.pix[e.ask[i] + 1], e.r.got[i].p)
                  /\ Match(<<"label", e.ask[i]>>, e.labels[e.ask[i] + 1], e.r.got[i].l)
             /\ UNCHANGED vars
\* the source may leave out the first image, which it then never counts
SourceOpen(e) == /\ Match("size", TRUE, Len(e.imgs) - e.r.size \in {0, 1})
                 /\ SrcOpen(Images(e), Len(e.imgs) - e.r.size)

\* the training program itself: ends, saves its model, reports an accuracy that n images can give
Program(e) == /\ Match("exit", 0, e.r.rc) /\ Match("model saved", 1, e.r.saved)
              /\ Match("accuracy is possible", TRUE,
                       /\ e.r.acc >= 0 /\ e.r.acc <= 1000001
                       /\ \E h \in 0..e.n : LET x == e.r.acc * e.n - 1000000 * h IN x <= 2 * e.n /\ x >= -2 * e.n)
              /\ UNCHANGED vars

EventAct(e) ==
    CASE e.op = "reset"   -> file' = <<>> /\ pos' = 0 /\ src' = [file |-> <<>>, from |-> 0, pos |-> 0] /\ out' = "ok" /\ res' = <<>>
      [] e.op = "open"    -> Open(Images(e))
      [] e.op = "get"     -> Get(e.i)
      [] e.op = "next"    -> NextImage
      [] e.op = "bad"     -> BadOpen(e)
      [] e.op = "short"   -> Short(e)
      [] e.op = "sparse"  -> Sparse(e)
      [] e.op = "source"  -> SourceOpen(e)
      [] e.op = "sreset"  -> SrcReset
      [] e.op = "spoint"  -> SrcPoint
      [] e.op = "program" -> Program(e)
      [] OTHER -> FALSE
Observed(e) ==
    /\ Match("outcome", out', e.r.out)
    /\ e.op \in {"get", "next", "spoint"} => Match("image", res', e.r.res)
    /\ "n" \in DOMAIN e.r => Match("image count", Len(file'), e.r.n) /\ Match("current index", pos', e.r.idx)
    /\ "has" \in DOMAIN e.r => /\ Match("data available", src'.pos < Len(src'.file), e.r.has)
                               /\ Match("size", Len(src'.file) - src'.from, e.r.size)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN "r" \in DOMAIN e /\ EventAct(e) /\ Observed(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
