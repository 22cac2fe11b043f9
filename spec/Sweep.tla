-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* The engine's algorithm, one scan beam per step.                         *)
(*                                                                         *)
(* Between two scan lines the plane is crossed by a word of edges, ordered *)
(* from left to right; each has a polygon type, the change of winding it   *)
(* makes when crossed rightwards, and its x on the lower and on the upper  *)
(* scan line.  Everything on the scan lines themselves is horizontal, so   *)
(* any sequence of words whose windings sum to zero is a closed input.     *)
(*                                                                         *)
(* A step computes the winding counts incrementally from the left          *)
(* neighbour (Count), selects the contributing edges (Contributes), drops  *)
(* coincident ones and stitches the rest to the bounds left open by the    *)
(* beam below (Stitch).  An output is the chain of points from the end of  *)
(* its left bound down, around and up to the end of its right bound.       *)
(***************************************************************************)
EXTENDS Geom

CONSTANTS Subject0, Clip0

VARIABLES op, rule,   \* the question asked
          beams,      \* words swept so far, lowest first
          bounds,     \* open bounds, left to right: [out, left, x]
          outs,       \* output id -> chain of points
          done,       \* closed contours
          ok          \* every stitch joined a left end to a right end
svars == <<op, rule, beams, bounds, outs, done, ok>>

(* ---------------------------- winding counts --------------------------- *)
\* the count of an edge is that of its filled side, the one further from zero
RECURSIVE Count(_, _, _)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Abs0(n) == IF n < 0 THEN -n ELSE n
\* own: nearest edge of the same type to the left (0: none)
Own(w, i) == LET s == {j \in 1..(i - 1) : w[j].ty = w[i].ty} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j
Count(w, rl, i) ==
  LET l == Own(w, i) IN
  IF l = 0 \/ rl = 0 THEN w[i].d
  ELSE LET c == Count(w, rl, l) IN
       IF c * w[l].d < 0
       THEN IF Abs0(c) > 1 THEN (IF w[l].d * w[i].d < 0 THEN c ELSE c + w[i].d) ELSE w[i].d
       ELSE IF w[l].d * w[i].d < 0 THEN c ELSE c + w[i].d
\* winding of the other input at this edge
Count2(w, rl, i) ==
  LET s == {j \in 1..(i - 1) : w[j].ty # w[i].ty} IN
  IF rl = 0 THEN Cardinality(s) % 2 ELSE FoldLeft(LAMBDA a, j : IF w[j].ty # w[i].ty THEN a + w[j].d ELSE a, 0, [j \in 1..(i - 1) |-> j])

Contributes(w, o, rl, i) ==
  LET c == Count(w, rl, i) d == Count2(w, rl, i)
      in2 == CASE rl = 2 -> d > 0 [] rl = 3 -> d < 0 [] OTHER -> d # 0
  IN  /\ CASE rl = 0 -> TRUE [] rl = 1 -> Abs0(c) = 1 [] rl = 2 -> c = 1 [] rl = 3 -> c = -1
      /\ CASE o = 0 -> FALSE [] o = 1 -> in2 [] o = 2 -> ~in2 [] o = 4 -> TRUE
           [] o = 3 -> IF w[i].ty = Subject0 THEN ~in2 ELSE in2

\* contributing edges from left to right, pairs of coincident ones cancelled
Borders(w, o, rl) ==
  FoldLeft(LAMBDA acc, i :
      IF ~Contributes(w, o, rl, i) THEN acc
      ELSE IF acc # << >> /\ Last(acc).b = w[i].b /\ Last(acc).t = w[i].t THEN Front(acc)
      ELSE Append(acc, w[i]),
    << >>, [i \in DOMAIN w |-> i])

(* ------------------------------- stitching ----------------------------- *)
\* the state threaded through one stitch
St == [bounds |-> bounds, outs |-> outs, done |-> done, ok |-> TRUE, next |-> << >>]
Fresh(f) == LET k == {0} \cup DOMAIN f IN (CHOOSE m \in k : \A n \in k : n <= m) + 1
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* two open ends meet
Join(s, a, b) ==
  IF a.left = b.left THEN [s EXCEPT !.ok = FALSE]
  ELSE LET r == IF a.left THEN b ELSE a     \* the right bound, whose end the chain of the left bound continues
           l == IF a.left THEN a ELSE b
       IN  IF r.out = l.out THEN [s EXCEPT !.done = Append(@, s.outs[r.out]), !.outs = Without(@, r.out)]
           ELSE LET c == s.outs[r.out] \o s.outs[l.out]
                    ren == [i \in DOMAIN s.bounds |-> IF s.bounds[i].out = l.out THEN [s.bounds[i] EXCEPT !.out = r.out] ELSE s.bounds[i]]
                    nex == [i \in DOMAIN s.next |-> IF s.next[i].out = l.out THEN [s.next[i] EXCEPT !.out = r.out] ELSE s.next[i]]
                IN  [s EXCEPT !.outs = With(Without(@, l.out), r.out, c), !.bounds = ren, !.next = nex]
\* an open end goes on along an edge that starts on scan line y
Continue(s, bd, e, y) ==
  IF bd.left # e.left THEN [s EXCEPT !.ok = FALSE]
  ELSE LET p == << <<e.b, y>>, <<e.t, y + 1>> >> IN
       [s EXCEPT !.outs[bd.out] = IF bd.left THEN Reverse(p) \o @ ELSE @ \o p, !.next = Append(@, [pos |-> e.pos, out |-> bd.out, left |-> bd.left, x |-> e.t])]
\* a left and a right edge start an output
Open(s, e, f, y) ==
  IF e.left = f.left THEN [s EXCEPT !.ok = FALSE]
  ELSE LET l == IF e.left THEN e ELSE f  r == IF e.left THEN f ELSE e  k == Fresh(s.outs)
       IN  [s EXCEPT !.outs = With(@, k, << <<l.t, y + 1>>, <<l.b, y>>, <<r.b, y>>, <<r.t, y + 1>> >>),
                     !.next = @ \o << [pos |-> l.pos, out |-> k, left |-> TRUE, x |-> l.t], [pos |-> r.pos, out |-> k, left |-> FALSE, x |-> r.t] >>]

\* bounds that meet on the scan line in left-right pairs are closed first
RECURSIVE CloseTops(_, _)
CloseTops(s, i) ==
  IF i + 1 > Len(s.bounds) THEN s
  ELSE IF s.bounds[i].x = s.bounds[i + 1].x
       THEN LET t == Join(s, s.bounds[i], s.bounds[i + 1])
            IN  CloseTops([t EXCEPT !.bounds = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 2, Len(@))], i)
       ELSE CloseTops(s, i + 2)
\* and so are edges that start there in left-right pairs
RECURSIVE OpenBottoms(_, _, _, _)
OpenBottoms(s, es, y, rest) ==
  IF Len(es) < 2 THEN [s |-> s, rest |-> rest \o es]
  ELSE IF es[1].b = es[2].b THEN OpenBottoms(Open(s, es[1], es[2], y), SubSeq(es, 3, Len(es)), y, rest)
       ELSE OpenBottoms(s, SubSeq(es, 3, Len(es)), y, rest \o << es[1], es[2] >>)

\* what is left, ordered by x, edges before bounds: same place first, then neighbours
Item(e, isEdge, i) == [x |-> IF isEdge THEN e.b ELSE e.x, edge |-> isEdge, i |-> i]
Merge(es, bs) ==
  LET all == [i \in 1..(Len(es) + Len(bs)) |-> IF i <= Len(es) THEN Item(es[i], TRUE, i) ELSE Item(bs[i - Len(es)], FALSE, i - Len(es))]
  IN  SortSeq([i \in DOMAIN all |-> [x |-> all[i].x, edge |-> all[i].edge, i |-> all[i].i, n |-> i]], LAMBDA a, b : a.x < b.x \/ (a.x = b.x /\ a.n < b.n))
RECURSIVE Pair(_, _, _, _)
Pair(s, m, es, y) ==
  IF m = << >> THEN s
  ELSE IF Len(m) = 1 THEN [s EXCEPT !.ok = FALSE]
  ELSE
    LET h == m[1]
        same == {j \in 2..Len(m) : m[j].x = h.x /\ m[j].edge # h.edge}
        j == IF same = {} THEN 2 ELSE CHOOSE k \in same : \A n \in same : k <= n
        g == m[j]
        bd(it) == s.bounds[it.i]
        t == IF h.edge /\ g.edge THEN Open(s, es[h.i], es[g.i], y)
             ELSE IF ~h.edge /\ ~g.edge THEN Join(s, bd(h), bd(g))
             ELSE IF h.edge THEN Continue(s, bd(g), es[h.i], y) ELSE Continue(s, bd(h), es[g.i], y)
    IN  Pair(t, SubSeq(m, 2, j - 1) \o SubSeq(m, j + 1, Len(m)), es, y)

Stitched(w, o, rl, y) ==
  LET c == Borders(w, o, rl)
      es == [i \in DOMAIN c |-> [b |-> c[i].b, t |-> c[i].t, left |-> i % 2 = 1, pos |-> i]]
      s1 == CloseTops(St, 1)
      ob == OpenBottoms(s1, es, y, << >>)
      s2 == Pair(ob.s, Merge(ob.rest, ob.s.bounds), ob.rest, y)
      nb == SortSeq(s2.next, LAMBDA a, b : a.pos < b.pos)
  IN  [s2 EXCEPT !.next = nb, !.ok = @ /\ ob.s.ok /\ s1.ok /\ Len(c) % 2 = 0]

SInit(o, rl) == op = o /\ rule = rl /\ beams = << >> /\ bounds = << >> /\ outs = << >> /\ done = << >> /\ ok = TRUE
Beam(w) ==
  LET s == Stitched(w, op, rule, Len(beams)) IN
  /\ ok
  /\ beams' = Append(beams, w)
  /\ outs' = s.outs /\ done' = s.done /\ ok' = s.ok
  /\ bounds' = [i \in DOMAIN s.next |-> [out |-> s.next[i].out, left |-> s.next[i].left, x |-> s.next[i].x]]
  /\ UNCHANGED <<op, rule>>

(* ------------------------------- meaning ------------------------------- *)
WindUpTo(w, ty, i) == FoldLeft(LAMBDA a, j : IF w[j].ty = ty THEN a + w[j].d ELSE a, 0, [j \in 1..i |-> j])
\* is the strip between edges i and i+1 of a word in the result?
Inside(w, o, rl, i) == Combine(o, Filled(rl, WindUpTo(w, Subject0, i)), Filled(rl, WindUpTo(w, Clip0, i)))
=============================================================================
