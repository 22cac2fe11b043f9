-------------------------------- MODULE Oracle --------------------------------
(***************************************************************************)
(* The specification compiled to tables: for every directed edge between   *)
(* two points of a (G+1) x (G+1) lattice its contribution to the winding   *)
(* number at a fixed set of sample points and whether the sample is clear   *)
(* of it; the truth tables of the fill rules and of the operations; and the *)
(* atoms (unit edges and half diagonals) with the samples on both sides.    *)
(* Winding is additive over edges, so these tables give River's expected    *)
(* answer for every polygon set on the lattice, however large.              *)
(***************************************************************************)
EXTENDS Geom, Json, IOUtils
CONSTANTS G, Slice, Slices
Unit == 60
NP == (G + 1) * (G + 1)
Pt(i) == << (i % (G + 1)) * Unit, (i \div (G + 1)) * Unit >>
Offsets == << <<30, 10>>, <<30, 50>>, <<10, 30>>, <<50, 30>>,          \* quarter cells
              <<7, 19>>, <<41, 11>>, <<23, 47>>, <<53, 37>> >>
NS == G * G * 8
Sample(k) == LET c == k \div 8   o == Offsets[(k % 8) + 1]
             IN << (c % G) * Unit + o[1], (c \div G) * Unit + o[2] >>
Clearance == 2

Code(e, p) == (IF UpCross(e, p) THEN 2 ELSE IF DownCross(e, p) THEN 0 ELSE 1)
              + (IF ClearOf(e, p, Clearance) THEN 3 ELSE 0)
Row(i, j) == LET e == <<Pt(i)[1], Pt(i)[2], Pt(j)[1], Pt(j)[2]>>
             IN  [k \in 1..NS |-> Code(e, Sample(k - 1))]
Pairs == SetToSeq({x \in (0..NP-1) \X (0..NP-1) : x[1] < x[2] /\ (x[1] + x[2]) % Slices = Slice})

Dist2(p, q) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])
Quarters == {k \in 0..NS-1 : k % 8 < 4}
Nearest(p) == CHOOSE k \in Quarters : \A m \in Quarters : Dist2(Sample(k), p) <= Dist2(Sample(m), p)
Inside(p) == p[1] > 0 /\ p[2] > 0 /\ p[1] < G * Unit /\ p[2] < G * Unit
SideId(p) == IF Inside(p) THEN Nearest(p) ELSE -1
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
L(a) == << a[1] + (a[3] \div 2) - 5 * Sg(a[4]), a[2] + (a[4] \div 2) + 5 * Sg(a[3]) >>
R(a) == << a[1] + (a[3] \div 2) + 5 * Sg(a[4]), a[2] + (a[4] \div 2) - 5 * Sg(a[3]) >>
H == Unit \div 2
AtomSet == {<<x*Unit, y*Unit, Unit, 0>> : x \in 0..G-1, y \in 0..G}
      \cup {<<x*Unit, y*Unit, 0, Unit>> : x \in 0..G, y \in 0..G-1}
      \cup {<<x*Unit, y*Unit, H, H>> : x \in 0..G-1, y \in 0..G-1}
      \cup {<<x*Unit+H, y*Unit+H, H, H>> : x \in 0..G-1, y \in 0..G-1}
      \cup {<<x*Unit+Unit, y*Unit, -H, H>> : x \in 0..G-1, y \in 0..G-1}
      \cup {<<x*Unit+H, y*Unit+H, -H, H>> : x \in 0..G-1, y \in 0..G-1}
Bit(b) == IF b THEN 1 ELSE 0
Tables ==
  [ g |-> G, ns |-> NS,
    samples |-> [k \in 1..NS |-> Sample(k - 1)],
    pairs |-> [i \in DOMAIN Pairs |-> <<Pairs[i][1], Pairs[i][2]>> \o Row(Pairs[i][1], Pairs[i][2])],
    fill |-> [r \in 1..4 |-> [w \in 1..65 |-> Bit(Filled(r - 1, w - 33))]],
    op |-> [o \in 1..5 |-> [m \in 1..4 |-> Bit(Combine(o - 1, (m - 1) \div 2 = 1, (m - 1) % 2 = 1))]],
    atoms |-> IF Slice # 0 THEN <<>> ELSE
              LET A == SetToSeq(AtomSet) IN [i \in DOMAIN A |-> A[i] \o <<SideId(L(A[i])), SideId(R(A[i]))>>] ]

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT_FILE, Tables)
Spec == Init /\ [][Next]_done
=============================================================================
