------------------------------ MODULE TraceRiver ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against River.    *)
(*                                                                         *)
(* The trace file holds many histories, each opened by a "begin" event     *)
(* that carries the sample points.  Every "new", "add", "proc", "del"      *)
(* event must be a step of River; a "proc" event additionally carries the  *)
(* contours the real library wrote (rounded to quanta), which are judged   *)
(* here against the region River prescribes.  An "abort" event (crash,     *)
(* hang, sanitizer report) is a step of no action and is always rejected.  *)
(*                                                                         *)
(* Sample points are proposed by the driver but it is this module that     *)
(* decides whether they are far enough from the input boundary to count.   *)
(***************************************************************************)
EXTENDS River, Json, IOUtils

CONSTANT Checks       \* which judgements are enforced for this property

TraceFile == IOEnv.TRACE_FILE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,          \* next line of the trace
          ctx,        \* the current "begin" record
          acc,        \* id -> [ws, wc : windings at the samples, clr, es, ec]
          obs,        \* <<p, op, rule>> -> observed [win, area, tol]
          verdict     \* judgement of the last event

tvars == <<procs, l, ctx, acc, obs, verdict>>

Ev == Trace[l]
Unit == 60
Has(r, f) == f \in DOMAIN r

(* ------------------------- derived input state ------------------------ *)
Zero(SM) == [k \in DOMAIN SM |-> 0]
NewAcc(SM) == [ws |-> TLCEval(Zero(SM)), wc |-> TLCEval(Zero(SM)),
               clr |-> TLCEval([k \in DOMAIN SM |-> TRUE]), es |-> <<>>, ec |-> <<>>]

AddAcc(a, ty, cs, SM, d) ==
  LET E == EdgesOfAll(cs)
      w == WindVec(E, SM)
      c == ClearVec(E, SM, d)
      sum(v) == TLCEval([k \in DOMAIN SM |-> v[k] + w[k]])
      clr == TLCEval([k \in DOMAIN SM |-> a.clr[k] /\ c[k]])
  IN  IF ty = Subject THEN [a EXCEPT !.ws = sum(@), !.clr = clr, !.es = @ \o E]
                      ELSE [a EXCEPT !.wc = sum(@), !.clr = clr, !.ec = @ \o E]

Expected(a, op, rule) ==
  TLCEval([k \in DOMAIN a.ws |-> Combine(op, Filled(rule, a.ws[k]), Filled(rule, a.wc[k]))])

(* ------------------------- judgements --------------------------------- *)
RegionOK(a, ev, win) ==
  LET x == Expected(a, ev.op, ev.rule)
  IN  \A k \in DOMAIN win : a.clr[k] => (win[k] # 0) = x[k]

UnitWindingOK(a, win) == \A k \in DOMAIN win : a.clr[k] => win[k] \in {0, 1}

\* one move, at least two edges, explicit return to the start
ClosedOK(out) == \A i \in DOMAIN out :
  /\ Len(out[i]) >= 3
  /\ Len(out[i][1]) = 2
  /\ \A j \in 2..Len(out[i]) : Len(out[i][j]) \in {2, 6}
  /\ EndPt(out[i][Len(out[i])]) = out[i][1]

\* Probe of the j-th element of output contour i, a straight edge of at least 24
\* quanta: two points `off` quanta left and right of its middle.  Provided the
\* only input edges near the middle run exactly along one line, the left point
\* must be in the result and the right one outside.
LL(e) == Abs(e[3] - e[1]) + Abs(e[4] - e[2])
SidesOK(a, ev) ==
  LET I == a.es \o a.ec IN
  \A n \in DOMAIN ev.sides :
    LET h == ev.sides[n]
        s == EndPt(ev.out[h[1]][h[2] - 1])
        t == EndPt(ev.out[h[1]][h[2]])
        dx == t[1] - s[1]
        dy == t[2] - s[2]
        m == Max2(Abs(dx), Abs(dy))
        ox == ((-dy) * h[4]) \div m
        oy == (dx * h[4]) \div m
        M == <<(s[1] + t[1]) \div 2, (s[2] + t[2]) \div 2>>
        L == <<M[1] + ox, M[2] + oy>>
        R == <<M[1] - ox, M[2] - oy>>
        near == {k \in DOMAIN I : ~ClearOf(I[k], M, 2 * h[4] + h[5])}
        Valid == /\ \A k \in near : Abs(Side(I[k], s)) <= LL(I[k]) /\ Abs(Side(I[k], t)) <= LL(I[k])
                 /\ \A k, j \in near : /\ Side(I[k], <<I[j][1], I[j][2]>>) = 0
                                       /\ Side(I[k], <<I[j][3], I[j][4]>>) = 0
        In(p) == Combine(ev.op, Filled(ev.rule, Wind(a.es, p)), Filled(ev.rule, Wind(a.ec, p)))
    IN  (~IsCubic(ev.out[h[1]][h[2]]) /\ m >= 24 /\ Valid) => (In(L) /\ ~In(R))

\* With curves: no two long output elements share the middle of one of them.
\* (The drivers only record inputs whose features are clearly separated.)
Elements(out) ==
  FoldLeft(LAMBDA s, c : s \o [j \in 1..(Len(c) - 1) |->
     LET u == EndPt(c[j])
         w == EndPt(c[j + 1])
         P == IF IsCubic(c[j + 1]) THEN <<u>> \o SegPts(u, c[j + 1]) ELSE <<u, w>>
     IN  [long |-> Abs(u[1] - w[1]) + Abs(u[2] - w[2]) >= 160,
          mid |-> IF IsCubic(c[j + 1]) THEN P[NSEG \div 2 + 1] ELSE <<(u[1] + w[1]) \div 2, (u[2] + w[2]) \div 2>>,
          ch |-> [i \in 1..(Len(P) - 1) |-> <<P[i][1], P[i][2], P[i + 1][1], P[i + 1][2]>>]]],
     <<>>, out)
\* q within one quantum of the chord e
Touches(e, q) ==
  /\ q[1] >= Min2(e[1], e[3]) /\ q[1] <= Max2(e[1], e[3])
  /\ q[2] >= Min2(e[2], e[4]) /\ q[2] <= Max2(e[2], e[4])
  /\ Abs(Side(e, q)) <= Max2(Abs(e[3] - e[1]), Abs(e[4] - e[2]))
OnceOK(p, ev) ==
  \/ \A i \in DOMAIN procs[p].subj : ~HasCubic(procs[p].subj[i])
     /\ \A k \in DOMAIN procs[p].clip : ~HasCubic(procs[p].clip[k])
  \/ LET E == TLCEval(Elements(ev.out)) IN
     \A i, j \in {k \in DOMAIN E : E[k].long} :
        i # j => \A k \in DOMAIN E[j].ch : ~Touches(E[j].ch[k], E[i].mid)

(* exact boundary on octilinear grid inputs: the plane is cut into atoms    *)
(* (unit axis edges, half diagonals), ctx.atoms lists them, the samples are *)
(* their left and right sides                                               *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
SegAtoms(p, q) ==
  LET dx == q[1] - p[1]   dy == q[2] - p[2]
  IN  IF dx = 0 /\ dy = 0 THEN {}
      ELSE IF dx = 0 \/ dy = 0
        THEN {<<p[1] + i * Unit * Sgn(dx), p[2] + i * Unit * Sgn(dy), Unit * Sgn(dx), Unit * Sgn(dy)>> :
              i \in 0..((Abs(dx) + Abs(dy)) \div Unit - 1)}
      ELSE LET h == Unit \div 2 IN
           {<<p[1] + i * h * Sgn(dx), p[2] + i * h * Sgn(dy), h * Sgn(dx), h * Sgn(dy)>> :
              i \in 0..(Abs(dx) \div h - 1)}
SegAligned(p, q) ==
  LET dx == Abs(q[1] - p[1])   dy == Abs(q[2] - p[2])
  IN  \/ dx = 0 /\ dy % Unit = 0
      \/ dy = 0 /\ dx % Unit = 0
      \/ dx = dy /\ dx % (Unit \div 2) = 0
SegLen(p, q) ==
  LET dx == Abs(q[1] - p[1])   dy == Abs(q[2] - p[2])
  IN  IF dx = 0 \/ dy = 0 THEN (dx + dy) \div Unit ELSE dx \div (Unit \div 2)

AtomsL(at) == << at[1] + (at[3] \div 2) - 5 * Sgn(at[4]), at[2] + (at[4] \div 2) + 5 * Sgn(at[3]) >>
AtomsR(at) == << at[1] + (at[3] \div 2) + 5 * Sgn(at[4]), at[2] + (at[4] \div 2) - 5 * Sgn(at[3]) >>
RevAtom(at) == << at[1] + at[3], at[2] + at[4], -at[3], -at[4] >>

SamplesOf(b) ==
  IF Len(b.atoms) = 0 THEN b.sm
  ELSE TLCEval([k \in 1..(2 * Len(b.atoms)) |->
         IF k % 2 = 1 THEN AtomsL(b.atoms[(k + 1) \div 2]) ELSE AtomsR(b.atoms[k \div 2])])

AtomsOK(a, ev) ==
  \/ Len(ctx.atoms) = 0
  \/ LET x == Expected(a, ev.op, ev.rule)
         E == EdgesOfAll(ev.out)
         want == {ctx.atoms[i] : i \in {j \in DOMAIN ctx.atoms : x[2*j - 1] /\ ~x[2*j]}}
            \cup {RevAtom(ctx.atoms[i]) : i \in {j \in DOMAIN ctx.atoms : x[2*j] /\ ~x[2*j - 1]}}
         got == UNION {SegAtoms(<<E[i][1], E[i][2]>>, <<E[i][3], E[i][4]>>) : i \in DOMAIN E}
         n == FoldLeft(LAMBDA s, e : s + SegLen(<<e[1], e[2]>>, <<e[3], e[4]>>), 0, E)
     IN  /\ \A i \in DOMAIN E : SegAligned(<<E[i][1], E[i][2]>>, <<E[i][3], E[i][4]>>)
         /\ got = want
         /\ n = Cardinality(got)          \* nothing is emitted twice

(* ------------------------- provenance --------------------------------- *)
\* q lies on the straight edge e within d quanta
OnEdge(e, q, d) ==
  /\ q[1] >= Min2(e[1], e[3]) - d /\ q[1] <= Max2(e[1], e[3]) + d
  /\ q[2] >= Min2(e[2], e[4]) - d /\ q[2] <= Max2(e[2], e[4]) + d
  /\ Abs(Side(e, q)) <= d * (Abs(e[3] - e[1]) + Abs(e[4] - e[2]))

Inputs(p, ty) == IF ty = Subject THEN procs[p].subj ELSE procs[p].clip
LineEdges(cs) ==
  LET ofc(c) == FoldLeft(LAMBDA s, i :
                  LET e == IF i = Len(c) THEN EndPt(c[1]) ELSE EndPt(c[i + 1])
                      b == EndPt(c[i])
                  IN  IF i < Len(c) /\ IsCubic(c[i + 1]) THEN
                          \* a cubic whose control points share one height is a straight edge
                          IF c[i+1][2] = b[2] /\ c[i+1][4] = b[2] /\ e[2] = b[2]
                            THEN Append(s, <<b[1], b[2], e[1], e[2]>>) ELSE s
                      ELSE Append(s, <<b[1], b[2], e[1], e[2]>>),
                  <<>>, [i \in 1..Len(c) |-> i])
  IN  FoldLeft(LAMBDA s, c : s \o ofc(c), <<>>, cs)

\* a..b is covered, along its longer axis, by input edges that run along it
Covered(I, a, b, d) ==
  LET x == IF Abs(b[1] - a[1]) >= Abs(b[2] - a[2]) THEN 1 ELSE 2
      lo == Min2(a[x], b[x])
      hi == Max2(a[x], b[x])
      along == {k \in DOMAIN I : /\ LL(I[k]) > 0
                                /\ Abs(Side(I[k], a)) <= d * LL(I[k])
                                /\ Abs(Side(I[k], b)) <= d * LL(I[k])}
      iv == {<<Min2(I[k][x], I[k][x + 2]), Max2(I[k][x], I[k][x + 2])>> : k \in along}
      stops == {lo} \cup {v[2] : v \in {w \in iv : w[2] >= lo /\ w[2] < hi - d}}
  IN  /\ along # {}
      /\ \A t \in stops : \E v \in iv : v[1] <= t + d /\ v[2] >= Min2(t + 1, hi - d)
LineProvOK(p, ev) ==
  LET I == TLCEval(LineEdges(procs[p].subj) \o LineEdges(procs[p].clip)) IN
  \A i \in DOMAIN ev.out : \A j \in 2..Len(ev.out[i]) :
    IsCubic(ev.out[i][j]) \/ Covered(I, EndPt(ev.out[i][j - 1]), ev.out[i][j], 2)

\* hint for the n-th cubic of the output: <<ty, contour, edge, t0, t1>>
CubicsOf(out) ==
  FoldLeft(LAMBDA s, c : s \o FoldLeft(LAMBDA t, j :
      IF IsCubic(c[j]) THEN Append(t, KOf(EndPt(c[j - 1]), c[j])) ELSE t,
      <<>>, [j \in 1..(Len(c) - 1) |-> j + 1]), <<>>, out)

CubicProvOK(p, ev) ==
  LET Q == TLCEval(CubicsOf(ev.out)) IN
  /\ Len(Q) = Len(ev.cub)
  /\ \A n \in DOMAIN Q :
       LET h == ev.cub[n] IN
       /\ Len(h) = 5
       /\ h[2] \in DOMAIN Inputs(p, h[1])
       /\ LET c == Inputs(p, h[1])[h[2]] IN
          /\ h[3] \in 1..(Len(c) - 1)
          /\ IsCubic(c[h[3] + 1])
          /\ h[4] \in 0..TT /\ h[5] \in 0..TT
          /\ LET s == SubCubic(KOf(EndPt(c[h[3]]), c[h[3] + 1]), h[4], h[5])
             IN  \A i \in 1..8 : Abs(s[i] - Q[n][i]) <= 6

\* in line-only inputs every output vertex lies on at least two input edges
VertexProvOK(p, ev) ==
  LET cs == procs[p].subj \o procs[p].clip
      I == TLCEval(LineEdges(cs)) IN
  \/ \E i \in DOMAIN cs : HasCubic(cs[i])
  \/ \A i \in DOMAIN ev.out : \A j \in DOMAIN ev.out[i] :
       Cardinality({k \in DOMAIN I : OnEdge(I[k], EndPt(ev.out[i][j]), 2)}) >= 2

ProvOK(p, ev) == LineProvOK(p, ev) /\ CubicProvOK(p, ev) /\ VertexProvOK(p, ev) /\ ev.off = 0

On(c) == c \in Checks

(* ------------------------- areas -------------------------------------- *)
SegArea2(o, a, s) ==     \* twice the signed area swept from o
  LET p0 == Rel(a, o) IN
  IF ~IsCubic(s) THEN Det(p0, Rel(s, o))
  ELSE LET p1 == Rel(<<s[1], s[2]>>, o)
           p2 == Rel(<<s[3], s[4]>>, o)
           p3 == Rel(<<s[5], s[6]>>, o)
       IN  (6 * Det(p0, p1) + 3 * Det(p0, p2) + Det(p0, p3)
            + 3 * Det(p1, p2) + 3 * Det(p1, p3) + 6 * Det(p2, p3)) \div 10
Area2(out) == FoldLeft(LAMBDA s, c : s +
     FoldLeft(LAMBDA t, j : t + SegArea2(c[1], EndPt(c[j - 1]), c[j]), 0, [j \in 1..(Len(c) - 1) |-> j + 1]),
     0, out)
L1(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
SegTol(a, s) == IF ~IsCubic(s) THEN L1(a, s) + 2
                ELSE 2 * (L1(a, <<s[1], s[2]>>) + L1(<<s[1], s[2]>>, <<s[3], s[4]>>)
                          + L1(<<s[3], s[4]>>, <<s[5], s[6]>>)) + 12
AreaTol(out) == FoldLeft(LAMBDA s, c : s +
     FoldLeft(LAMBDA t, j : t + SegTol(EndPt(c[j - 1]), c[j]), 0, [j \in 1..(Len(c) - 1) |-> j + 1]),
     0, out)

O(p, op, rule) == obs[<<p, op, rule>>]
Known(S) == S \subseteq DOMAIN obs
\* |sum of coefficients * areas| within the accumulated rounding
Law(terms) ==
  Known({<<t[2], t[3], t[4]>> : t \in terms}) =>
    LET S == SetToSeq(terms)
        v == FoldLeft(LAMBDA s, t : s + t[1] * O(t[2], t[3], t[4]).area, 0, S)
        e == FoldLeft(LAMBDA s, t : s + O(t[2], t[3], t[4]).tol, 0, S)
    IN  Abs(v) <= e + 20

\* p holds (S, C), q the same with exchanged roles, s only the subject, c only the clip
MeasureOK(ev) ==
  LET p == ev.p  q == ev.q  s == ev.s  c == ev.c  r == ev.rule
  IN  /\ procs[q].subj = procs[p].clip /\ procs[q].clip = procs[p].subj
      /\ procs[s].subj = procs[p].subj /\ procs[s].clip = <<>>
      /\ procs[c].subj = procs[p].clip /\ procs[c].clip = <<>>
      /\ Known({<<p, o, r>> : o \in Ops} \cup {<<q, Difference, r>>, <<s, Union, r>>, <<c, Union, r>>})
      /\ Law({<<1, p, Union, r>>, <<-1, p, Intersection, r>>, <<-1, p, Xor, r>>})
      /\ Law({<<1, p, Xor, r>>, <<-1, p, Difference, r>>, <<-1, q, Difference, r>>})
      /\ Law({<<1, s, Union, r>>, <<-1, p, Intersection, r>>, <<-1, p, Difference, r>>})
      /\ Law({<<1, c, Union, r>>, <<-1, p, Intersection, r>>, <<-1, q, Difference, r>>})
      /\ \A o \in Ops : O(p, o, r).area >= -(O(p, o, r).tol)
      /\ \A x \in {s, c} :
           /\ O(p, Intersection, r).area <= O(x, Union, r).area + O(p, Intersection, r).tol + O(x, Union, r).tol
           /\ O(p, Union, r).area >= O(x, Union, r).area - O(p, Union, r).tol - O(x, Union, r).tol

\* the same elements in the same order; coordinates may differ by rounding
SameForm(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       /\ Len(a[i]) = Len(b[i])
       /\ \A j \in DOMAIN a[i] :
            /\ Len(a[i][j]) = Len(b[i][j])
            /\ \A k \in DOMAIN a[i][j] : Abs(a[i][j][k] - b[i][j][k]) <= 1

(* ------------------------- same result -------------------------------- *)
\* the driver claims that p under (op, rule) and q under (op2, rule2) describe
\* the same region; the spec first checks the claim on the inputs, then demands
\* it of the observed results
SameOK(ev) ==
  LET ka == <<ev.p, ev.op, ev.rule>>   kb == <<ev.q, ev.op2, ev.rule2>>
      a == acc[ev.p]   b == acc[ev.q]
      x == Expected(a, ev.op, ev.rule)   y == Expected(b, ev.op2, ev.rule2)
      u == obs[<<ev.p, ev.op, ev.rule>>].win   v == obs[<<ev.q, ev.op2, ev.rule2>>].win
      both(k) == a.clr[k] /\ b.clr[k]
  IN  /\ \A k \in DOMAIN u : both(k) => x[k] = y[k]
      /\ \A k \in DOMAIN u : both(k) => (u[k] # 0) = (v[k] # 0)
      /\ On("area") => Abs(obs[ka].area - obs[kb].area) <= obs[ka].tol + obs[kb].tol + 20

(* ------------------------- behaviour ---------------------------------- *)
JudgeProc(ev, a, win) ==
  IF ~(\A i \in DOMAIN ev.out : Len(ev.out[i]) >= 1 /\ Len(ev.out[i][1]) = 2) THEN "malformed"
  ELSE IF On("region") /\ ~RegionOK(a, ev, win) THEN "region"
  ELSE IF On("form") /\ ~(ClosedOK(ev.out) /\ ev.ec = 1) THEN "not closed"
  ELSE IF On("form") /\ ~UnitWindingOK(a, win) THEN "winding"
  ELSE IF On("form") /\ ~SidesOK(a, ev) THEN "edge sides"
  ELSE IF On("form") /\ ~OnceOK(ev.p, ev) THEN "edge twice"
  ELSE IF On("form") /\ ~AtomsOK(a, ev) THEN "boundary atoms"
  ELSE IF On("prov") /\ ~ProvOK(ev.p, ev) THEN "provenance"
  ELSE IF On("io") /\ ~(ev.pre = 1 /\ ev.inp = 1) THEN "caller data changed"
  ELSE IF On("api") /\ ~(ev.proto = 1 /\ (Has(ev, "ref") => SameForm(ev.out, ev.ref))) THEN "interfaces disagree"
  ELSE "ok"

TInit == /\ RInit /\ l = 1 /\ ctx = [id |-> 0, sm |-> <<>>, atoms |-> <<>>, clr |-> 0]
         /\ acc = << >> /\ obs = << >> /\ verdict = "ok"
         /\ TLCSet(1, 0) /\ TLCSet(2, 0)

IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TBegin == /\ IsEvent("begin")
          /\ ctx' = [id |-> Ev.id, clr |-> Ev.clr, atoms |-> Ev.atoms, sm |-> SamplesOf(Ev)]
          /\ procs' = << >> /\ acc' = << >> /\ obs' = << >> /\ verdict' = "ok"

TNew == /\ IsEvent("new") /\ New(Ev.p)
        /\ acc' = [q \in DOMAIN acc \cup {Ev.p} |-> IF q = Ev.p THEN NewAcc(ctx.sm) ELSE acc[q]]
        /\ verdict' = "ok" /\ UNCHANGED <<ctx, obs>>

TAdd == /\ IsEvent("add") /\ Add(Ev.p, Ev.ty, Ev.c)
        /\ acc' = [acc EXCEPT ![Ev.p] = AddAcc(@, Ev.ty, Ev.c, ctx.sm, ctx.clr)]
        /\ verdict' = "ok" /\ UNCHANGED <<ctx, obs>>

TProc == /\ IsEvent("proc") /\ Process(Ev.p, Ev.op, Ev.rule)
         /\ LET win == WindVec(EdgesOfAll(Ev.out), ctx.sm)
                k == <<Ev.p, Ev.op, Ev.rule>>
                o == [win |-> win, area |-> IF On("area") THEN Area2(Ev.out) ELSE 0,
                      tol |-> IF On("area") THEN AreaTol(Ev.out) ELSE 0]
            IN  /\ verdict' = JudgeProc(Ev, acc[Ev.p], win)
                /\ obs' = [q \in DOMAIN obs \cup {k} |-> IF q = k THEN o ELSE obs[q]]
         /\ UNCHANGED <<ctx, acc>>

TMeasure == /\ IsEvent("measure")
            /\ verdict' = IF MeasureOK(Ev) THEN "ok" ELSE "measure"
            /\ UNCHANGED <<procs, ctx, acc, obs>>

TSame == /\ IsEvent("same")
         /\ verdict' = IF SameOK(Ev) THEN "ok" ELSE "presentation"
         /\ UNCHANGED <<procs, ctx, acc, obs>>

TDel == /\ IsEvent("del") /\ Destroy(Ev.p)
        /\ acc' = [q \in DOMAIN acc \ {Ev.p} |-> acc[q]]
        /\ verdict' = "ok" /\ UNCHANGED <<ctx, obs>>

\* after the last processor is gone the library holds no memory of the history
TBalance == /\ IsEvent("balance")
            /\ verdict' = IF Live = {} /\ Ev.bytes # 0 THEN "memory kept" ELSE "ok"
            /\ UNCHANGED <<procs, ctx, acc, obs>>

TStep == TBalance \/ TBegin \/ TNew \/ TAdd \/ TProc \/ TMeasure \/ TSame \/ TDel


Note == IF verdict' = "ok" THEN TRUE
        ELSE TLCSet(1, TLCGet(1) + 1) /\ PrintT(<<"REJECT", ctx'.id, l, verdict'>>)
TNext == (IF l <= Len(Trace) /\ Ev.e \in {"begin", "new", "add", "proc", "measure", "same", "del", "balance"}
            /\ (Ev.e \in {"add", "proc", "del"} => Ev.p \in Live) /\ (Ev.e = "new" => Ev.p \notin Live)
          THEN TStep
          ELSE /\ l <= Len(Trace)
               /\ l' = l + 1 /\ verdict' = "no such step" /\ UNCHANGED <<procs, ctx, acc, obs>>)
         /\ Note

TSpec == TInit /\ [][TNext]_tvars

TraceAccepted ==
  /\ PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace), TLCGet(1)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ TLCGet(1) = 0
=============================================================================
