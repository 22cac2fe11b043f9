----------------------------- MODULE TracePath ------------------------------
(***************************************************************************)
(* Judges recorded histories of path objects, texts, broad-phase scans and *)
(* calls of the small helpers, one per line.                               *)
(***************************************************************************)
EXTENDS Paths, ScanLine, Helpers, Json, IOUtils
CONSTANT Checks
VARIABLES l, verdict
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ev == Trace[l]
Ok == "ok"
ToSet(q) == {q[i] : i \in DOMAIN q}

(* ---- path objects: steps <<"b", slot, kind, numbers>>, <<"m", from, to>>,
        <<"t", slot, kinds with callback, calls, user ok>>.  Numbers are
        indices of the driver's table of doubles; 0 is the number 0.  ---- *)
RECURSIVE PathRun(_, _, _)
PathRun(steps, k, st) ==
  IF k > Len(steps) THEN Ok
  ELSE LET x == steps[k]
       IN  CASE x[1] = "b" -> PathRun(steps, k + 1, [st EXCEPT ![x[2]] = Append(@, <<x[3], x[4]>>)])
             [] x[1] = "m" -> PathRun(steps, k + 1, [st EXCEPT ![x[3]] = st[x[2]], ![x[2]] = <<>>])
             [] x[1] = "t" -> IF x[4] # Visits(st[x[2]], ToSet(x[3]), <<0, 0>>) THEN "traversal differs from the recorded elements"
                              ELSE IF x[5] # 1 THEN "wrong user pointer" ELSE PathRun(steps, k + 1, st)

(* ---- text: codes, and the returned numbers as <<sign, first six digits,
        next six digits, exponent>> of 0.dddddd * 10^e ------------------- *)
D(v, i) == IF i <= Len(v[2]) THEN v[2][i] ELSE 0
Six(v, a) == 100000 * D(v, a) + 10000 * D(v, a + 1) + 1000 * D(v, a + 2) + 100 * D(v, a + 3) + 10 * D(v, a + 4) + D(v, a + 5)
\* v rounded to twelve digits, as the driver writes numbers
Rounded(v) ==
  IF v[2] = <<>> THEN <<v[1], 0, 0, 0>>
  ELSE LET hi == Six(v, 1)  lo == Six(v, 7) + (IF D(v, 13) >= 5 THEN 1 ELSE 0)
           h2 == IF lo = 1000000 THEN hi + 1 ELSE hi
           l2 == IF lo = 1000000 THEN 0 ELSE lo
       IN  IF h2 = 1000000 THEN <<v[1], 100000, 0, v[3] + 1>> ELSE <<v[1], h2, l2, v[3]>>
SameNum(v, g) ==
  LET r == Rounded(v)
  IN  /\ r[1] = g[1] /\ r[4] = g[4]
      /\ r[2] - g[2] \in {-1, 0, 1} /\ (r[2] - g[2]) * 1000000 + r[3] - g[3] \in {-1, 0, 1}
SamePath(p, g) == Len(p) = Len(g) /\ \A k \in DOMAIN p : p[k][1] = g[k][1] /\ Len(p[k][2]) = Len(g[k][2]) /\ \A j \in DOMAIN p[k][2] : SameNum(p[k][2][j], g[k][2][j])
TextOK(s, got) ==
  LET want == TLCEval(Parse(s))
  IN  IF Len(want) # Len(got) THEN "wrong number of paths"
      ELSE IF \E i \in DOMAIN want : Len(want[i]) # Len(got[i]) THEN "wrong number of elements"
      ELSE IF \E i \in DOMAIN want : ~SamePath(want[i], got[i]) THEN "wrong element" ELSE Ok

(* ---- broad phase: scans of the first n items, each with its calls ---- *)
Sorted(c) == IF c[1] < c[2] THEN <<c[1], c[2]>> ELSE <<c[2], c[1]>>
ScanOK(items, scans) ==
  LET one(sc) == LET want == Pairs(SubSeq(items, 1, sc[1]))
                     got == {Sorted(sc[2][i]) : i \in DOMAIN sc[2]}
                 IN  IF sc[3] # 1 THEN "wrong user pointer"
                     ELSE IF want \ got # {} THEN "overlapping pair not reported"
                     ELSE IF got \ want # {} THEN "pair reported that does not overlap"
                     ELSE IF Cardinality(got) # Len(sc[2]) THEN "pair reported twice" ELSE Ok
      bad == {i \in DOMAIN scans : one(scans[i]) # Ok}
  IN  IF bad = {} THEN Ok ELSE one(scans[CHOOSE i \in bad : \A j \in bad : i <= j])

Judge(ev) ==
  CASE ev.f = "path" -> PathRun(ev.x, 1, [i \in 1..4 |-> <<>>])
    [] ev.f = "text" -> TextOK(ev.s, ev.o)
    [] ev.f = "scan" -> ScanOK(ev.b, ev.q)
    [] ev.f = "rhit" -> IF RHit(ev.a, ev.o) THEN Ok ELSE "wrong overlap"
    [] ev.f = "rbox" -> IF RBox(ev.a, ev.o) THEN Ok ELSE "wrong box"
    [] ev.f = "rfrom" -> IF RFrom(ev.a, ev.o) THEN Ok ELSE "not the box of the points"
    [] ev.f = "line" -> IF LineOK(ev.a, ev.o, ev.in) THEN Ok ELSE "wrong line or projection"
    [] ev.f = "vec" -> IF VecOK(ev.a, ev.o) THEN Ok ELSE "wrong vector"
    [] ev.f = "abort" -> "did not return"
    [] OTHER -> "unknown call"
Init == l = 1 /\ verdict = "ok" /\ TLCSet(1, 0)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ verdict' = Judge(Ev)
        /\ IF verdict' = "ok" THEN TRUE ELSE TLCSet(1, TLCGet(1) + 1) /\ PrintT(<<"REJECT", Ev.id, l, Ev.f \o ": " \o verdict'>>)
TSpec == Init /\ [][Next]_<<l, verdict>>
TraceAccepted == /\ PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace), TLCGet(1)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
