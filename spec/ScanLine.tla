------------------------------ MODULE ScanLine ------------------------------
(***************************************************************************)
(* The broad phase: a sweep over x that reports pairs of items whose boxes *)
(* overlap.  An item is a box <<x1, y1, x2, y2>>.  The order in which the  *)
(* active set is visited is left open.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Overlap(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
\* what a scan has to report
Pairs(items) == {p \in (DOMAIN items) \X (DOMAIN items) : p[1] < p[2] /\ Overlap(items[p[1]], items[p[2]])}
=============================================================================
