------------------------------- MODULE Helpers ------------------------------
(***************************************************************************)
(* Vectors, rectangles and lines of rmath on integer arguments: what each  *)
(* helper returns, exactly.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
\* closed rectangles <<x1, y1, x2, y2>> share a point
Share(a, b) == \E x \in {a[1], b[1]}, y \in {a[2], b[2]} : a[1] <= x /\ x <= a[3] /\ b[1] <= x /\ x <= b[3] /\ a[2] <= y /\ y <= a[4] /\ b[2] <= y /\ y <= b[4]
Bool(n) == n = 1
RHit(a, o) == LET p == SubSeq(a, 1, 4)  q == SubSeq(a, 5, 8) IN Bool(o[1]) = Share(p, q) /\ Bool(o[2]) = Share(p, q) /\ o[3] = 1
\* a = box, n;  o = width, height, twice the centre, box grown by n, square around the first corner, the corner as a box
RBox(a, o) == LET n == a[5]
              IN  o = <<a[3] - a[1], a[4] - a[2], a[1] + a[3], a[2] + a[4], a[1] - n, a[2] - n, a[3] + n, a[4] + n,
                        a[1] - n, a[2] - n, a[1] + n, a[2] + n, a[1], a[2], a[1], a[2]>>
RFrom(a, o) == LET X == {a[i] : i \in {j \in DOMAIN a : j % 2 = 1}}  Y == {a[i] : i \in {j \in DOMAIN a : j % 2 = 0}}
               IN  o = <<Lo(X), Lo(Y), Hi(X), Hi(Y)>>
\* a = two ends and a point; o = A, B, C; in = the point projects into the segment
LineOK(a, o, in) ==
  LET dx == a[3] - a[1]  dy == a[4] - a[2]  f == dx * (a[5] - a[1]) + dy * (a[6] - a[2])
  IN  /\ ~(o[1] = 0 /\ o[2] = 0)
      /\ o[1] * a[1] + o[2] * a[2] + o[3] = 0 /\ o[1] * a[3] + o[2] * a[4] + o[3] = 0
      /\ Bool(in) = IF dx = 0 /\ dy = 0 THEN a[5] = a[1] /\ a[6] = a[2] ELSE 0 <= f /\ f <= dx * dx + dy * dy
B01(b) == IF b THEN 1 ELSE 0
VecOK(a, o) ==
  LET px == a[1]  py == a[2]  qx == a[3]  qy == a[4]  k == a[5]
  IN  o = <<px + qx, py + qy, px - qx, py - qy, -px, -py, px * k, py * k, px * k, py * k, px + k, py + k, px - k, py - k,
            px * qx + py * qy, px * qy - qx * py, px * px + py * py, B01(px = qx /\ py = qy), B01(~(px = qx /\ py = qy))>>
=============================================================================
