-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact integer plane geometry used by every other module.               *)
(*                                                                         *)
(* Points are pairs <<x, y>> of integers (y up), lengths are measured in   *)
(* "quanta".  A contour is a sequence whose first element is its start     *)
(* point and whose other elements are either                               *)
(*     <<x, y>>                          a straight edge to (x, y), or     *)
(*     <<c1x, c1y, c2x, c2y, x, y>>      a cubic Bezier edge to (x, y).    *)
(* A contour is closed implicitly by a straight edge.                      *)
(*                                                                         *)
(* TLC integers have 32 bits: all coordinates stay below 2^13 in absolute  *)
(* value, products of two differences below 2^28, fixed-point products     *)
(* below 2^30.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------ cubics -------------------------------- *)
TT == 65536            \* fixed-point one for curve parameters
NSEG == 32             \* chords per cubic edge when it is flattened

Lerp(a, b, t) == a + (((b - a) * t) \div TT)

\* de Casteljau, one coordinate, three (possibly different) parameters: the
\* blossom b(t1, t2, t3) of the cubic with control values a, b, c, d.
Blossom(a, b, c, d, t1, t2, t3) ==
  LET ab == Lerp(a, b, t1)
      bc == Lerp(b, c, t1)
      cd == Lerp(c, d, t1)
      abc == Lerp(ab, bc, t2)
      bcd == Lerp(bc, cd, t2)
  IN  Lerp(abc, bcd, t3)

\* K is a cubic <<x0, y0, x1, y1, x2, y2, x3, y3>>
BlossomPt(K, t1, t2, t3) ==
  << Blossom(K[1], K[3], K[5], K[7], t1, t2, t3),
     Blossom(K[2], K[4], K[6], K[8], t1, t2, t3) >>

CubicAt(K, t) == IF t = 0 THEN <<K[1], K[2]>> ELSE IF t = TT THEN <<K[7], K[8]>>
                 ELSE BlossomPt(K, t, t, t)

\* control points of the sub-curve t1..t2 (t1 > t2 gives the reversed piece)
SubCubic(K, t1, t2) ==
  LET p0 == CubicAt(K, t1)
      p1 == BlossomPt(K, t1, t1, t2)
      p2 == BlossomPt(K, t1, t2, t2)
      p3 == CubicAt(K, t2)
  IN  <<p0[1], p0[2], p1[1], p1[2], p2[1], p2[2], p3[1], p3[2]>>

(* ------------------------------ contours ------------------------------ *)
EndPt(s) == IF Len(s) = 2 THEN s ELSE <<s[5], s[6]>>
IsCubic(s) == Len(s) = 6
KOf(prev, s) == <<prev[1], prev[2], s[1], s[2], s[3], s[4], s[5], s[6]>>

SegPts(prev, s) ==
  IF Len(s) = 2 THEN <<s>>
  ELSE LET K == KOf(prev, s) IN [k \in 1..NSEG |-> CubicAt(K, k * (TT \div NSEG))]

HasCubic(c) == \E i \in 2..Len(c) : Len(c[i]) = 6

FlatPts(c) ==
  IF ~HasCubic(c) THEN c
  ELSE FoldLeft(LAMBDA acc, i : acc \o SegPts(EndPt(c[i]), c[i + 1]),
                <<c[1]>>, [i \in 1..(Len(c) - 1) |-> i])

\* directed chords <<x1, y1, x2, y2>> of a contour, closing chord included
Edges(c) ==
  LET P == TLCEval(FlatPts(c))
      n == Len(P)
  IN  TLCEval([i \in 1..n |-> LET q == IF i = n THEN P[1] ELSE P[i + 1]
                              IN  <<P[i][1], P[i][2], q[1], q[2]>>])

EdgesOfAll(cs) == TLCEval(FoldLeft(LAMBDA acc, c : acc \o Edges(c), <<>>, cs))

(* ------------------------------ predicates ---------------------------- *)
\* > 0 iff p is left of the directed edge e
Side(e, p) == (e[3] - e[1]) * (p[2] - e[2]) - (p[1] - e[1]) * (e[4] - e[2])

UpCross(e, p)   == e[2] <= p[2] /\ e[4] > p[2] /\ Side(e, p) > 0
DownCross(e, p) == e[4] <= p[2] /\ e[2] > p[2] /\ Side(e, p) < 0

\* winding number of the closed contours with edge sequence E around p,
\* counter-clockwise positive
Wind(E, p) ==
    Cardinality({i \in DOMAIN E : UpCross(E[i], p)})
  - Cardinality({i \in DOMAIN E : DownCross(E[i], p)})

WindVec(E, SM) == TLCEval([k \in DOMAIN SM |-> Wind(E, SM[k])])

\* p is at least d quanta away from the edge e (sufficient condition)
ClearOf(e, p, d) ==
  \/ p[1] < Min2(e[1], e[3]) - d \/ p[1] > Max2(e[1], e[3]) + d
  \/ p[2] < Min2(e[2], e[4]) - d \/ p[2] > Max2(e[2], e[4]) + d
  \/ Abs(Side(e, p)) >= d * (Abs(e[3] - e[1]) + Abs(e[4] - e[2])) + 1

ClearVec(E, SM, d) == TLCEval([k \in DOMAIN SM |-> \A i \in DOMAIN E : ClearOf(E[i], SM[k], d)])

Near(p, q, d) == Abs(p[1] - q[1]) <= d /\ Abs(p[2] - q[2]) <= d

(* ------------------------------ fill and combine ---------------------- *)
EvenOdd == 0   NonZero == 1   Positive == 2   Negative == 3
Rules == {EvenOdd, NonZero, Positive, Negative}
OpNone == 0   Intersection == 1   Union == 2   Difference == 3   Xor == 4
Ops == {Intersection, Union, Difference, Xor}

Filled(rule, w) ==
  CASE rule = EvenOdd  -> w % 2 = 1
    [] rule = NonZero  -> w # 0
    [] rule = Positive -> w > 0
    [] rule = Negative -> w < 0

Combine(op, s, c) ==
  CASE op = OpNone       -> FALSE
    [] op = Intersection -> s /\ c
    [] op = Union        -> s \/ c
    [] op = Difference   -> s /\ ~c
    [] op = Xor          -> s # c

(* ------------------------------ areas --------------------------------- *)
\* Twice the signed area of a polygon and ten times twice the area of a cubic
\* edge, both relative to the point o (usually the contour's start).
Det(p, q) == p[1] * q[2] - p[2] * q[1]
Rel(p, o) == <<p[1] - o[1], p[2] - o[2]>>
=============================================================================
