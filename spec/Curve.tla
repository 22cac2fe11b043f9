------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Exact statements about cubic curves and cubic polynomials: evaluation,  *)
(* sub-curves, certified isolation of real roots, certified bounds and     *)
(* certified crossings of two curves.  Used to say what the functions of   *)
(* rmath must return.                                                      *)
(***************************************************************************)
EXTENDS Big, FiniteSets

IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b
ISign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

Q == 40                         \* recorded numbers are multiples of 2^-Q
ONE == BPow2(Q)

(* ------------------------- evaluation --------------------------------- *)
\* (1 - t) a + t b for t = T / N, scaled by N
BLerp(a, b, T, N) == BAdd(BMul(a, BSub(N, T)), BMul(b, T))

\* blossom of the cubic with control values a, b, c, d (numbers of Big), scaled by N^3
BBlossom(a, b, c, d, T1, T2, T3, N) ==
  LET ab == BLerp(a, b, T1, N)   bc == BLerp(b, c, T1, N)   cd == BLerp(c, d, T1, N)
      abc == BLerp(ab, bc, T2, N)   bcd == BLerp(bc, cd, T2, N)
  IN  BLerp(abc, bcd, T3, N)

\* value of the cubic with integer control values v at t = T / N, scaled by N^3
BEval(v, T, N) == BBlossom(BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4]), T, T, T, N)

XS(K) == <<K[1], K[3], K[5], K[7]>>
YS(K) == <<K[2], K[4], K[6], K[8]>>

(* ------------------------- subdivision -------------------------------- *)
\* halves of a cubic in Bernstein form, both scaled by 8
HalfL(b) == LET ab == BAdd(b[1], b[2])  bc == BAdd(b[2], b[3])  cd == BAdd(b[3], b[4])
                abc == BAdd(ab, bc)  bcd == BAdd(bc, cd)
            IN  <<BMulI(b[1], 8), BMulI(ab, 4), BMulI(abc, 2), BAdd(abc, bcd)>>
HalfR(b) == LET ab == BAdd(b[1], b[2])  bc == BAdd(b[2], b[3])  cd == BAdd(b[3], b[4])
                abc == BAdd(ab, bc)  bcd == BAdd(bc, cd)
            IN  <<BAdd(abc, bcd), BMulI(bcd, 2), BMulI(cd, 4), BMulI(b[4], 8)>>

Signs(b) == <<BSign(b[1]), BSign(b[2]), BSign(b[3]), BSign(b[4])>>
SameSign(s) == (\A i \in DOMAIN s : s[i] > 0) \/ (\A i \in DOMAIN s : s[i] < 0)
Increments(b) == <<BSign(BSub(b[2], b[1])), BSign(BSub(b[3], b[2])), BSign(BSub(b[4], b[3]))>>

(* ------------------------- isolation of roots ------------------------- *)
\* Roots in [lo, lo + 1) / 2^d of the cubic whose Bernstein form on that interval
\* is b: a sequence of <<lo, d>> with exactly one root in each, which is simple.
\* <<-1, 0>> stands for "undecided within maxd halvings".
RECURSIVE Isolate(_, _, _, _)
Isolate(b, lo, d, maxd) ==
  LET s == TLCEval(Signs(b))   m == TLCEval(Increments(b))
  IN  IF SameSign(s) \/ (s[4] = 0 /\ SameSign(<<s[1], s[2], s[3]>>)) THEN <<>>
      ELSE IF SameSign(m) THEN (IF s[1] = 0 \/ s[1] * s[4] < 0 THEN << <<lo, d>> >> ELSE <<>>)
      ELSE IF d >= maxd THEN << <<-1, 0>> >>
      ELSE Isolate(HalfL(b), 2 * lo, d + 1, maxd) \o Isolate(HalfR(b), 2 * lo + 1, d + 1, maxd)

\* f on [lo, lo+1)/2^d, by halving from [0, 1]
RECURSIVE Piece(_, _, _)
Piece(b, lo, d) == IF d = 0 THEN b
                   ELSE LET h == Piece(b, lo \div 2, d - 1) IN IF lo % 2 = 0 THEN HalfL(h) ELSE HalfR(h)

\* halve a bracket until depth k, keeping the half that holds the root
RECURSIVE Refine(_, _, _, _)
Refine(b, lo, d, k) ==
  IF d >= k THEN lo
  ELSE LET L == TLCEval(HalfL(b))
       IN  IF BSign(L[1]) = 0 \/ BSign(L[1]) * BSign(L[4]) < 0 THEN Refine(L, 2 * lo, d + 1, k)
           ELSE Refine(TLCEval(HalfR(b)), 2 * lo + 1, d + 1, k)

\* the roots in [0, 1) of a cubic in Bernstein form as multiples of 2^-k
RootsOf(b, k, maxd) ==
  LET iso == TLCEval(Isolate(b, 0, 0, maxd))
  IN  IF \E i \in DOMAIN iso : iso[i][1] < 0 THEN [ok |-> FALSE, at |-> <<>>]
      ELSE [ok |-> TRUE, at |-> TLCEval([i \in DOMAIN iso |-> Refine(TLCEval(Piece(b, iso[i][1], iso[i][2])), iso[i][1], iso[i][2], k)])]

BV(v) == <<BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4])>>

(* ------------------------- certified bounds --------------------------- *)
\* b >= 0 on the whole interval ("yes"), not shown within n halvings ("no")
RECURSIVE NonNeg(_, _)
NonNeg(b, n) ==
  LET s == TLCEval(Signs(b))
  IN  IF \A i \in 1..4 : s[i] >= 0 THEN TRUE
      ELSE IF s[1] < 0 \/ s[4] < 0 \/ n = 0 THEN FALSE
      ELSE NonNeg(HalfL(b), n - 1) /\ NonNeg(HalfR(b), n - 1)
\* b <= 0 somewhere on the interval
RECURSIVE Reaches(_, _)
Reaches(b, n) ==
  LET s == TLCEval(Signs(b))
  IN  IF s[1] <= 0 \/ s[4] <= 0 THEN TRUE
      ELSE IF (\A i \in 1..4 : s[i] > 0) \/ n = 0 THEN FALSE
      ELSE Reaches(HalfL(b), n - 1) \/ Reaches(HalfR(b), n - 1)

(* ------------------------- crossings of two cubics -------------------- *)
(* Plain integers here: control points in 1/F units, halved with rounding. *)
(* MG is larger than the accumulated rounding, so every conclusion drawn   *)
(* is valid for the exact curves; what cannot be concluded is undecided.   *)
F == 2048
MG == 16
SPAN == 16384                   \* pieces larger than this are halved first: keeps products below 2^31
Mid(a, b) == (a + b) \div 2
HL(K) == LET p == [i \in 1..6 |-> Mid(K[i], K[i + 2])]   q == [i \in 1..4 |-> Mid(p[i], p[i + 2])]
             r == [i \in 1..2 |-> Mid(q[i], q[i + 2])]
         IN  <<K[1], K[2], p[1], p[2], q[1], q[2], r[1], r[2]>>
HR(K) == LET p == [i \in 1..6 |-> Mid(K[i], K[i + 2])]   q == [i \in 1..4 |-> Mid(p[i], p[i + 2])]
             r == [i \in 1..2 |-> Mid(q[i], q[i + 2])]
         IN  <<r[1], r[2], q[3], q[4], p[5], p[6], K[7], K[8]>>
Min4(a, b, c, d) == IMin(IMin(a, b), IMin(c, d))
Max4(a, b, c, d) == IMax(IMax(a, b), IMax(c, d))
Box(K) == <<Min4(K[1], K[3], K[5], K[7]), Min4(K[2], K[4], K[6], K[8]), Max4(K[1], K[3], K[5], K[7]), Max4(K[2], K[4], K[6], K[8])>>
Apart(A, B) == LET a == Box(A)  b == Box(B) IN a[3] + MG < b[1] \/ b[3] + MG < a[1] \/ a[4] + MG < b[2] \/ b[4] + MG < a[2]
Leg(K, i) == <<K[2 * i + 1] - K[2 * i - 1], K[2 * i + 2] - K[2 * i]>>
Len1(v) == IAbs(v[1]) + IAbs(v[2])
Crs(u, v) == u[1] * v[2] - u[2] * v[1]
\* every direction of A turns the same way into every direction of B: at most one common point
Cone(A, B) ==
  LET c == [i \in 1..3 |-> [j \in 1..3 |-> LET u == Leg(A, i)  v == Leg(B, j)  x == Crs(u, v)
                                              m == MG * (Len1(u) + Len1(v)) + MG
                                          IN  IF x > m THEN 1 ELSE IF x < -m THEN -1 ELSE 0]]
  IN  (\A i \in 1..3, j \in 1..3 : c[i][j] = 1) \/ (\A i \in 1..3, j \in 1..3 : c[i][j] = -1)
\* the ends of A lie on opposite sides of the strip along B's chord that holds B
Strip(A, B) ==
  LET v == <<B[7] - B[1], B[8] - B[2]>>
      h(x, y) == v[1] * (y - B[2]) - v[2] * (x - B[1])
      m == 2 * MG * Len1(v) + MG
      lo == IMin(0, IMin(h(B[3], B[4]), h(B[5], B[6]))) - m
      hi == IMax(0, IMax(h(B[3], B[4]), h(B[5], B[6]))) + m
      s == h(A[1], A[2])   e == h(A[7], A[8])
  IN  (s < lo /\ e > hi) \/ (s > hi /\ e < lo)
Small(K) == LET b == Box(K) IN b[3] - b[1] <= SPAN /\ b[4] - b[2] <= SPAN
One(A, B) == Small(A) /\ Small(B) /\ Cone(A, B) /\ Strip(A, B) /\ Strip(B, A)

\* sequence of <<i, j, d>>: exactly one crossing with parameters in
\* [i, i+1] / 2^d and [j, j+1] / 2^d; none anywhere else.  i = -1: undecided.
RECURSIVE Crossings(_, _, _, _, _, _)
Crossings(A, B, i, j, d, maxd) ==
  IF Apart(A, B) THEN <<>>
  ELSE IF One(A, B) THEN << <<i, j, d>> >>
  ELSE IF d = maxd THEN << <<-1, i, j>> >>
  ELSE LET al == TLCEval(HL(A))  ar == TLCEval(HR(A))  bl == TLCEval(HL(B))  br == TLCEval(HR(B))
           c1 == Crossings(al, bl, 2 * i, 2 * j, d + 1, maxd)
           c2 == Crossings(al, br, 2 * i, 2 * j + 1, d + 1, maxd)
           c3 == Crossings(ar, bl, 2 * i + 1, 2 * j, d + 1, maxd)
           c4 == Crossings(ar, br, 2 * i + 1, 2 * j + 1, d + 1, maxd)
       IN  c1 \o c2 \o c3 \o c4
=============================================================================
