------------------------------ MODULE TraceMath -----------------------------
(***************************************************************************)
(* Judges recorded calls of rmath's functions, one per line.               *)
(***************************************************************************)
EXTENDS Rmath, Json, IOUtils
CONSTANT Checks
VARIABLES l, verdict
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ev == Trace[l]
Judge(ev) ==
  CASE "over" \in DOMAIN ev -> "more results than fit"
    [] ev.f = "seg" -> SegSeg(ev.a, ev.h)
    [] ev.f = "lcub" -> LineCubic(ev.l, ev.k, ev.h)
    [] ev.f = "ccub" -> CubicCubic(ev.k, ev.m, ev.pr, ev.h)
    [] ev.f = "split" -> SplitOK(ev.k, ev.t, ev.o)
    [] ev.f = "at" -> AtOK(ev.k, ev.t, ev.o)
    [] ev.f = "splity" -> SplitYOK(YS(ev.k), ev.t)
    [] ev.f = "bound" -> LET x == BoundOK(XS(ev.k), ev.o[1], ev.o[3]) IN IF x # "ok" THEN x ELSE BoundOK(YS(ev.k), ev.o[2], ev.o[4])
    [] ev.f = "aty" -> AtYOK(YS(ev.k), ev.y, ev.t)
    [] ev.f = "circle" -> CircleOK(ev.a[1], ev.a[2], ev.a[3], ev.o)
    [] ev.f = "solve" -> SolveOK(ev.c, ev.x)
    [] ev.f = "solvem" -> SolveMulOK(ev.a, ev.r, ev.c, ev.x)
    [] ev.f = "abort" -> "did not return"
    [] OTHER -> "unknown call"
Init == l = 1 /\ verdict = "ok" /\ TLCSet(1, 0) /\ TLCSet(2, 0)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ verdict' = Judge(Ev)
        /\ CASE verdict' = "ok" -> TRUE
             [] verdict' = "undecided" -> TLCSet(2, TLCGet(2) + 1)
             [] OTHER -> TLCSet(1, TLCGet(1) + 1) /\ PrintT(<<"REJECT", Ev.id, l, Ev.f \o ": " \o verdict'>>)
TSpec == Init /\ [][Next]_<<l, verdict>>
TraceAccepted == /\ PrintT(<<"UNDECIDED", TLCGet(2)>>)
                 /\ PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace), TLCGet(1)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
