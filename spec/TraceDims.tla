----------------------------- MODULE TraceDims ------------------------------
(* Checks that a recorded run of shapes and indices is a behaviour of Dims. *)
EXTENDS Dims, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == << dvars, l >>
Match(what, want, got) == IF want = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "specified", want, "observed", got>>) /\ FALSE

EventAct(e) ==
    CASE e.op = "reset" -> Start(e.n, e.many)
      [] e.op = "make"  -> Make(e.k, e.v)
      [] e.op = "fill"  -> Fill(e.k, e.x)
      [] e.op \in {"copy", "assign"} -> Copy(e.k, e.j)
      [] e.op \in {"move", "massign"} -> Move(e.k, e.j)
      [] e.op = "put"   -> Put(e.k, e.a, e.x)
      [] e.op = "add"   -> Add(e.k, e.i, e.j)
      [] e.op = "sub"   -> Subtract(e.k, e.i, e.j)
      [] e.op = "eq"    -> Compare(e.i, e.j)
      [] e.op = "size"  -> SizeOf(e.i)
      [] e.op = "flat"  -> FlatIdx(e.i, e.j)
      [] e.op = "bsize" -> BigSizeOf(e.i)
      [] e.op = "bflat" -> BigFlatIdx(e.i, e.j)
      [] e.op = "show"  -> Show(e.i)
      [] e.op = "iter"  -> Iterate(e.w, e.i, e.j)
      [] e.op = "step"  -> Step(e.w, e.post)
      [] e.op = "same"  -> Same
      [] e.op = "walk"  -> Walk(e.i)
      [] OTHER -> FALSE
Observed(e) ==
    /\ Match("outcome", "ok", e.r.out)
    /\ Match("result", res', e.r.res)
    /\ \A k \in 1..Len(reg') : Len(reg'[k]) > 0 => Match(<< "tuple", k >>, reg'[k], e.r.regs[k])
TraceInit == DimsInit /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN "r" \in DOMAIN e /\ EventAct(e) /\ Observed(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
