------------------------------- MODULE Rmath --------------------------------
(***************************************************************************)
(* What the functions of rmath must return.  Each operator takes the       *)
(* integer arguments of a call and the recorded results (multiples of      *)
(* 2^-40, exact integers of Big) and says whether the result is right.     *)
(* "ok", a reason, or "undecided" where the argument is outside the        *)
(* property's scope (tangential or unresolvably close).                    *)
(***************************************************************************)
EXTENDS Curve

\* |a / 2^sa - b / 2^sb| <= 2^-e  for recorded or exact numbers
CloseB(a, sa, b, sb, e) ==
  LET m == IMax(sa, sb)
      d == BSub(BShl(a, m - sa), BShl(b, m - sb))
  IN  BLe(BShl(BAbs(d), e), BPow2(m))

InUnit(T, slack) == BLe(BNeg(slack), T) /\ BLe(T, BAdd(ONE, slack))

(* ------------------------- segment / segment -------------------------- *)
Cross2(ax, ay, bx, by) == ax * by - ay * bx
\* |T / 2^Q - n / m| <= 2^-30
IsRatio(T, n, m) == LET d == BSub(BMul(T, BI(m)), BMul(ONE, BI(n))) IN BLe(BShl(BAbs(d), 30), BMul(ONE, BI(IAbs(m))))

\* end point e (1..4) of the collinear segments lies on the other segment, apart from its ends
OnOther(s, e) ==
  LET px == s[2 * e - 1]  py == s[2 * e]
      o == IF e <= 2 THEN 3 ELSE 1
      ax == s[2 * o - 1]  ay == s[2 * o]  bx == s[2 * o + 1]  by == s[2 * o + 2]
  IN  /\ ~(px = ax /\ py = ay) /\ ~(px = bx /\ py = by)
      /\ IMin(ax, bx) <= px /\ px <= IMax(ax, bx) /\ IMin(ay, by) <= py /\ py <= IMax(ay, by)

SegSeg(s, hits) ==
  LET ax == s[3] - s[1]  ay == s[4] - s[2]  bx == s[7] - s[5]  by == s[8] - s[6]
      cx == s[5] - s[1]  cy == s[6] - s[2]
      den == Cross2(ax, ay, bx, by)
      u == Cross2(cx, cy, bx, by)  v == Cross2(cx, cy, ax, ay)      \* times den
      sg == ISign(den)
      meet == den # 0 /\ 0 <= sg * u /\ sg * u <= IAbs(den) /\ 0 <= sg * v /\ sg * v <= IAbs(den)
      collinear == den = 0 /\ Cross2(cx, cy, ax, ay) = 0
      ends == IF collinear THEN {e \in 1..4 : OnOther(s, e)} ELSE {}
      pts == {<<s[2 * e - 1], s[2 * e]>> : e \in ends}
      at(h, e) == /\ h[1] = BMul(ONE, BI(s[2 * e - 1])) /\ h[2] = BMul(ONE, BI(s[2 * e]))
      \* parameter of point e on the segment from (x, y) along (dx, dy)
      par(T, e, x, y, dx, dy) == IF IAbs(dx) >= IAbs(dy) THEN IsRatio(T, s[2 * e - 1] - x, dx) ELSE IsRatio(T, s[2 * e] - y, dy)
  IN  IF den # 0
      THEN IF Len(hits) # (IF meet THEN 1 ELSE 0) THEN (IF meet THEN "crossing missed" ELSE "no common point there")
           ELSE IF ~meet THEN "ok"
           ELSE IF /\ IsRatio(hits[1][3], u, den) /\ IsRatio(hits[1][4], v, den)
                   /\ IsRatio(BSub(hits[1][1], BMul(ONE, BI(s[1]))), ax * u, den)
                   /\ IsRatio(BSub(hits[1][2], BMul(ONE, BI(s[2]))), ay * u, den)
                THEN "ok" ELSE "wrong point or parameter"
      ELSE IF Len(hits) # Cardinality(pts) THEN "wrong number of shared end points"
      ELSE IF \A e \in ends : Cardinality({i \in DOMAIN hits : /\ at(hits[i], e)
                                             /\ par(hits[i][3], e, s[1], s[2], ax, ay)
                                             /\ par(hits[i][4], e, s[5], s[6], bx, by)}) = 1
           THEN "ok" ELSE "wrong shared end point"

(* ------------------------- segment / cubic ---------------------------- *)
KD == 24                               \* roots are located to 2^-KD
HitTol == 64                           \* a hit within 2^-18 of the root is that root's
\* T rounded down to a multiple of 2^-KD, given as recorded small integer
SepOK(at) == \A i, j \in DOMAIN at : i < j => at[j] - at[i] > 8192

LineCubic(ln, K, hits) ==
  LET dx == ln[3] - ln[1]  dy == ln[4] - ln[2]
      side == [i \in 1..4 |-> Cross2(dx, dy, K[2 * i - 1] - ln[1], K[2 * i] - ln[2])]
      dot == [i \in 1..4 |-> dx * (K[2 * i - 1] - ln[1]) + dy * (K[2 * i] - ln[2])]
      dd == dx * dx + dy * dy
      R == RootsOf(BV(side), KD, 14)
      N24 == BPow2(KD)
      \* 1 inside the segment, 0 near one of its ends, -1 beyond
      place(r) == LET g == TLCEval(BEval(dot, BI(r), N24))      \* times 2^72
                      w == TLCEval(BShl(BI(dd), 3 * KD))
                  IN  IF BLt(w, BMulI(g, 1024)) /\ BLt(BMulI(g, 1024), BMulI(w, 1023)) THEN 1
                      ELSE IF BLt(BMulI(g, 1024), BNeg(w)) \/ BLt(BMulI(w, 1025), BMulI(g, 1024)) THEN -1
                      ELSE 0
      pl == TLCEval([i \in DOMAIN R.at |-> IF R.at[i] <= HitTol \/ R.at[i] >= 2^KD - HitTol THEN IMin(0, place(R.at[i])) ELSE place(R.at[i])])
      near(h, r) == IAbs(h[5] - r) <= HitTol                    \* h[5] = t1 in units of 2^-KD
      cnt(i) == Cardinality({j \in DOMAIN hits : near(hits[j], R.at[i])})
      endroot(h) == h[5] >= 2^KD - HitTol /\ side[4] = 0
      sound(h) ==
        /\ InUnit(h[3], BPow2(Q - 18)) /\ InUnit(h[4], BZero)
        /\ CloseB(h[1], Q, BEval(XS(K), h[4], ONE), 3 * Q, 24) /\ CloseB(h[2], Q, BEval(YS(K), h[4], ONE), 3 * Q, 24)
        /\ CloseB(h[1], Q, BLerp(BI(ln[1]), BI(ln[3]), h[3], ONE), Q, 16) /\ CloseB(h[2], Q, BLerp(BI(ln[2]), BI(ln[4]), h[3], ONE), Q, 16)
  IN  IF Len(hits) > 3 THEN "too many hits"
      ELSE IF ~(\A j \in DOMAIN hits : sound(hits[j])) THEN "hit not on both"
      ELSE IF ~R.ok \/ ~SepOK(R.at) \/ (\A i \in 1..4 : side[i] = 0) THEN "undecided"
      ELSE IF \E i \in DOMAIN R.at : pl[i] = 1 /\ cnt(i) = 0 THEN "crossing missed"
      ELSE IF \E i \in DOMAIN R.at : cnt(i) > 1 THEN "crossing reported twice"
      ELSE IF \E j \in DOMAIN hits : ~endroot(hits[j]) /\ ~(\E i \in DOMAIN R.at : pl[i] >= 0 /\ near(hits[j], R.at[i])) THEN "no crossing there"
      ELSE "ok"

(* ------------------------- cubic / cubic ------------------------------ *)
SameCubic(A, B) == A = B \/ A = <<B[7], B[8], B[5], B[6], B[3], B[4], B[1], B[2]>>
CubicCubic(A, B, precise, hits) ==
  LET C == TLCEval(Crossings([i \in 1..8 |-> A[i] * F], [i \in 1..8 |-> B[i] * F], 0, 0, 0, 9))
      known == {i \in DOMAIN C : C[i][1] >= 0}
      \* first-curve parameters of entry c in units of 2^-9
      from(c) == IF c[1] >= 0 THEN c[1] * 2^(9 - c[3]) ELSE c[2]
      upto(c) == IF c[1] >= 0 THEN (c[1] + 1) * 2^(9 - c[3]) ELSE c[2] + 1
      \* the only crossing at this place of the first curve
      lone == {i \in known : \A j \in DOMAIN C : j = i \/ from(C[j]) > upto(C[i]) \/ upto(C[j]) < from(C[i])}
      \* hits carry t0, t1 in units of 2^-24 as <<.., h[5], h[6]>>
      in(h, c) == LET w == 2^(KD - c[3]) IN c[1] * w <= h[5] /\ h[5] <= (c[1] + 1) * w /\ c[2] * w <= h[6] /\ h[6] <= (c[2] + 1) * w
      wide(h, c) == LET w == 2^(KD - 9) IN (c[2] - 1) * w <= h[5] /\ h[5] <= (c[2] + 2) * w /\ (c[3] - 1) * w <= h[6] /\ h[6] <= (c[3] + 2) * w
      cnt(c) == Cardinality({j \in DOMAIN hits : in(hits[j], c)})
      e == IMin(26, precise - 9)                                \* speed of a curve is below 2^8
      sound(h) ==
        /\ InUnit(h[3], BZero) /\ InUnit(h[4], BZero)
        /\ CloseB(h[1], Q, BEval(XS(A), h[3], ONE), 3 * Q, 24) /\ CloseB(h[2], Q, BEval(YS(A), h[3], ONE), 3 * Q, 24)
        /\ CloseB(h[1], Q, BEval(XS(B), h[4], ONE), 3 * Q, e) /\ CloseB(h[2], Q, BEval(YS(B), h[4], ONE), 3 * Q, e)
  IN  IF SameCubic(A, B) THEN (IF hits = <<>> THEN "ok" ELSE "identical curves")
      ELSE IF Len(hits) > 9 THEN "too many hits"
      ELSE IF ~(\A j \in DOMAIN hits : sound(hits[j])) THEN "hit not on both"
      ELSE IF \E i \in lone : cnt(C[i]) = 0 THEN "crossing missed"
      ELSE IF \E i \in known : cnt(C[i]) > 1 THEN "crossing reported twice"
      ELSE IF \E j \in DOMAIN hits : ~(\E i \in DOMAIN C : IF i \in known THEN in(hits[j], C[i]) ELSE wide(hits[j], C[i])) THEN "no crossing there"
      ELSE IF \E i, j \in DOMAIN hits : i < j /\ IAbs(hits[i][5] - hits[j][5]) <= 4 /\ IAbs(hits[i][6] - hits[j][6]) <= 4 THEN "crossing reported twice"
      ELSE IF lone = {} /\ C # <<>> THEN "undecided" ELSE "ok"

(* ------------------------- pieces of a cubic -------------------------- *)
\* ts: parameters; out: control points of the pieces, recorded numbers
SplitOK(K, ts, out) ==
  LET n == Len(ts)
      T(i) == IF i = 0 THEN BZero ELSE IF i = n + 1 THEN ONE ELSE ts[i]
      want(v, i, k) == LET a == T(i - 1)  b == T(i)
                       IN  CASE k = 1 -> BBlossom(BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4]), a, a, a, ONE)
                             [] k = 2 -> BBlossom(BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4]), a, a, b, ONE)
                             [] k = 3 -> BBlossom(BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4]), a, b, b, ONE)
                             [] k = 4 -> BBlossom(BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4]), b, b, b, ONE)
  IN  IF Len(out) # n + 1 THEN "wrong number of pieces"
      ELSE IF \E i \in 1..n : out[i][7] # out[i + 1][1] \/ out[i][8] # out[i + 1][2] THEN "pieces do not join"
      ELSE IF out[1][1] # BMul(ONE, BI(K[1])) \/ out[1][2] # BMul(ONE, BI(K[2])) \/ out[n + 1][7] # BMul(ONE, BI(K[7])) \/ out[n + 1][8] # BMul(ONE, BI(K[8])) THEN "ends moved"
      ELSE IF \E i \in 1..(n + 1), k \in 1..4 : ~CloseB(out[i][2 * k - 1], Q, want(XS(K), i, k), 3 * Q, 26) \/ ~CloseB(out[i][2 * k], Q, want(YS(K), i, k), 3 * Q, 26) THEN "piece differs from its parameter range"
      ELSE "ok"

AtOK(K, T, p) == IF CloseB(p[1], Q, BEval(XS(K), T, ONE), 3 * Q, 28) /\ CloseB(p[2], Q, BEval(YS(K), T, ONE), 3 * Q, 28) THEN "ok" ELSE "wrong point"

\* number of turns of a coordinate with control values v strictly inside (0, 1)
Turns(v) ==
  LET a == v[2] - v[1]  b == v[3] - v[2]  c == v[4] - v[3]
  IN  IF a = 0 /\ c = 0 THEN 0
      ELSE IF a = 0 THEN (IF b * c < 0 THEN 1 ELSE 0)
      ELSE IF c = 0 THEN (IF a * b < 0 THEN 1 ELSE 0)
      ELSE IF a * c < 0 THEN 1
      ELSE IF a * b < 0 /\ b * b > a * c THEN 2 ELSE 0
\* sign of the derivative at T / 2^Q
DerSign(v, T) ==
  LET a == BI(v[2] - v[1])  b == BI(v[3] - v[2])  c == BI(v[4] - v[3])
  IN  BSign(BLerp(BLerp(a, b, T, ONE), BLerp(b, c, T, ONE), T, ONE))
SplitYOK(v, ts) ==
  LET eps == BPow2(Q - 22)
  IN  IF Len(ts) # Turns(v) THEN "wrong number of turns"
      ELSE IF \E i \in DOMAIN ts : ~(BLt(BZero, ts[i]) /\ BLt(ts[i], ONE)) THEN "turn outside the curve"
      ELSE IF Len(ts) = 2 /\ ~BLt(ts[1], ts[2]) THEN "turns out of order"
      ELSE IF \E i \in DOMAIN ts : DerSign(v, BSub(ts[i], eps)) * DerSign(v, BAdd(ts[i], eps)) >= 0 THEN "no turn there"
      ELSE "ok"

\* lo, hi bound the coordinate with control values v tightly
BoundOK(v, lo, hi) ==
  LET up == BPow2(Q - 24)  tight == BPow2(Q - 20)
      f == [i \in 1..4 |-> BMul(ONE, BI(v[i]))]
      above(x) == [i \in 1..4 |-> BSub(f[i], x)]
      below(x) == [i \in 1..4 |-> BSub(x, f[i])]
  IN  IF ~NonNeg(above(BSub(lo, up)), 20) \/ ~NonNeg(below(BAdd(hi, up)), 20) THEN "curve leaves the box"
      ELSE IF ~Reaches(above(BAdd(lo, tight)), 20) \/ ~Reaches(below(BSub(hi, tight)), 20) THEN "box too large"
      ELSE "ok"

\* ts: parameters at which the curve with control heights v has height y
AtYOK(v, y, ts) ==
  LET w == [i \in 1..4 |-> v[i] - y]
      R == RootsOf(BV(w), KD, 14)
      near(h, r) == IAbs(h[2] - r) <= HitTol
      inner(r) == r > HitTol /\ r < 2^KD - HitTol
      ends(h) == (h[2] <= HitTol /\ w[1] = 0) \/ (h[2] >= 2^KD - HitTol /\ w[4] = 0)
  IN  IF Len(ts) > 3 \/ \E j \in DOMAIN ts : ~InUnit(ts[j][1], BZero) THEN "not a parameter"
      ELSE IF ~R.ok \/ ~SepOK(R.at) \/ (\A i \in 1..4 : w[i] = 0) THEN "undecided"
      ELSE IF \E i \in DOMAIN R.at : inner(R.at[i]) /\ Cardinality({j \in DOMAIN ts : near(ts[j], R.at[i])}) # 1 THEN "height missed or repeated"
      ELSE IF \E j \in DOMAIN ts : ~ends(ts[j]) /\ ~(\E i \in DOMAIN R.at : near(ts[j], R.at[i])) THEN "not at that height"
      ELSE "ok"

\* four quarter arcs around (cx, cy), radius r, counter-clockwise from the right
CircleOK(cx, cy, r, out) ==
  LET ex == <<r, 0, -r, 0>>   ey == <<0, r, 0, -r>>
      nx(i) == IF i = 4 THEN 1 ELSE i + 1
      isInt(b, n) == CloseB(b, Q, BI(n), 0, 30)
      ends == \A i \in 1..4 : /\ isInt(out[i][1], cx + ex[i]) /\ isInt(out[i][2], cy + ey[i])
                              /\ isInt(out[i][7], cx + ex[nx(i)]) /\ isInt(out[i][8], cy + ey[nx(i)])
      \* distance from the centre at t = k/8, squared, against r^2 (1 +- 1/1600)
      rel(i, j) == BSub(out[i][j], BMul(ONE, BI(IF j % 2 = 1 THEN cx ELSE cy)))
      N8 == BI(8)
      at(i, k, o) == BBlossom(rel(i, o), rel(i, o + 2), rel(i, o + 4), rel(i, o + 6), BI(k), BI(k), BI(k), N8)   \* times 2^(Q + 9)
      d2(i, k) == LET x == at(i, k, 1)  y == at(i, k, 2) IN BAdd(BMul(x, x), BMul(y, y))
      r2 == BShl(BMul(BI(r), BI(r)), 2 * Q + 18)
      round == \A i \in 1..4, k \in 1..7 : BLe(BMulI(BAbs(BSub(d2(i, k), r2)), 1600), r2)
  IN  IF Len(out) # 4 \/ ~ends THEN "quarters do not start and end on the axes"
      ELSE IF \E i \in 1..3 : out[i][7] # out[i + 1][1] \/ out[i][8] # out[i + 1][2] THEN "quarters do not join"
      ELSE IF ~round THEN "not round" ELSE "ok"

(* ------------------------- equations ---------------------------------- *)
\* c = <<a3, a2, a1, a0>>; xs: the returned roots, recorded numbers
PolyB(c, X, N) ==     \* p(X / N) N^3
  BSum(<<BMul(BI(c[1]), BMul(X, BMul(X, X))), BMul(BI(c[2]), BMul(BMul(X, X), N)), BMul(BI(c[3]), BMul(X, BMul(N, N))), BMul(BI(c[4]), BMul(N, BMul(N, N)))>>)
\* Bernstein form (times 3) of p on [-2^k, 2^k]
OnRange(c, k) ==
  LET R == BI(2^k)  W == BI(2^(k + 1))
      \* p(W t - R) = q3 t^3 + q2 t^2 + q1 t + q0
      a == [i \in 1..4 |-> BI(c[i])]
      RR == BMul(R, R)
      q3 == BMul(a[1], BMul(W, BMul(W, W)))
      q2 == BMul(BMul(W, W), BSub(a[2], BMulI(BMul(a[1], R), 3)))
      q1 == BMul(W, BSum(<<BMulI(BMul(a[1], RR), 3), BNeg(BMulI(BMul(a[2], R), 2)), a[3]>>))
      q0 == BSum(<<BNeg(BMul(a[1], BMul(R, RR))), BMul(a[2], RR), BNeg(BMul(a[3], R)), a[4]>>)
      b0 == BMulI(q0, 3)
  IN  <<b0, BAdd(b0, q1), BSum(<<b0, BMulI(q1, 2), q2>>), BMulI(BSum(<<q0, q1, q2, q3>>), 3)>>

SolveOK(c, xs) ==
  LET R == RootsOf(OnRange(c, 7), 30, 22)                     \* every root has magnitude below 2^7 (checked first)
      lead == IF c[1] # 0 THEN IAbs(c[1]) ELSE IF c[2] # 0 THEN IAbs(c[2]) ELSE IAbs(c[3])
      cauchy == \A i \in 1..4 : IAbs(c[i]) < 120 * lead
      \* xs[j] = <<recorded, (x + 2^7) 2^22>>; 2^30 steps span 2^8
      near(h, r) == IAbs(h[2] - r) <= 16
      bracket(h) == LET e == BPow2(Q - 22) IN BSign(PolyB(c, BSub(h[1], e), ONE)) * BSign(PolyB(c, BAdd(h[1], e), ONE)) <= 0
  IN  IF c[1] = 0 /\ c[2] = 0 /\ c[3] = 0 THEN (IF xs = <<>> THEN "ok" ELSE "roots of a constant")
      ELSE IF ~cauchy \/ ~R.ok \/ \E i, j \in DOMAIN R.at : i < j /\ R.at[j] - R.at[i] < 65536 THEN "undecided"
      ELSE IF Len(xs) # Len(R.at) THEN "wrong number of roots"
      ELSE IF \E i \in DOMAIN R.at : Cardinality({j \in DOMAIN xs : near(xs[j], R.at[i])}) # 1 THEN "root missed or repeated"
      ELSE IF \E j \in DOMAIN xs : ~bracket(xs[j]) THEN "not a root"
      ELSE "ok"

\* a (x - r1)(x - r2)(x - r3) or a (x - r1)(x - r2) with integer roots, multiple ones allowed
SolveMulOK(a, rs, c, xs) ==
  LET n == Len(rs)
      want == IF n = 3 THEN <<a, -a * (rs[1] + rs[2] + rs[3]), a * (rs[1] * rs[2] + rs[1] * rs[3] + rs[2] * rs[3]), -a * rs[1] * rs[2] * rs[3]>>
              ELSE <<0, a, -a * (rs[1] + rs[2]), a * rs[1] * rs[2]>>
      D == {rs[i] : i \in 1..n}
  IN  IF c # want THEN "not that polynomial"
      ELSE IF Len(xs) # Cardinality(D) THEN "wrong number of roots"
      ELSE IF \E r \in D : Cardinality({j \in DOMAIN xs : CloseB(xs[j][1], Q, BI(r), 0, 16)}) # 1 THEN "root missed or repeated"
      ELSE "ok"
=============================================================================
