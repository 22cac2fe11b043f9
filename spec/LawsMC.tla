-------------------------------- MODULE LawsMC --------------------------------
(***************************************************************************)
(* The derived laws of the contract (presentation, transforms, measure,    *)
(* boundary form), checked exhaustively on the specification itself for    *)
(* every pair of oriented polygons from a small grid: the laws that the    *)
(* conformance checks demand of the real library are theorems of River on  *)
(* this domain, not additional wishes.                                     *)
(***************************************************************************)
EXTENDS River
CONSTANTS N,        \* grid is (0..N)^2
          K,        \* largest number of vertices
          Thin,     \* every Thin-th clip polygon is taken
          Rect      \* only rectilinear polygons
VARIABLES S, C
Unit == 60
GP == {<<x * Unit, y * Unit>> : x \in 0..N, y \in 0..N}
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* oriented polygons, smallest vertex first, so every cyclic sequence occurs once
Polys(k) == {c \in [1..k -> GP] : \A i \in 2..k : Less(c[1], c[i])}
Rectilinear(c) == \A i \in DOMAIN c : LET d == c[(i % Len(c)) + 1] IN c[i][1] = d[1] \/ c[i][2] = d[2]
AllPolys == TLCEval({c \in UNION {Polys(k) : k \in 3..K} : Rect => Rectilinear(c)})
Key(c) == FoldLeft(LAMBDA a, p : (a * 7 + (p[1] \div 20) + (p[2] \div Unit)) % 9973, 0, c)
Clips == TLCEval({c \in AllPolys : Key(c) % Thin = 0})

Init == S \in AllPolys /\ C = << >> /\ procs = << >>
Next == C = << >> /\ C' \in Clips /\ UNCHANGED <<S, procs>>
Spec == Init /\ [][Next]_<<S, C, procs>>
Chosen == C # << >>

SM == {<<x * Unit + o[1], y * Unit + o[2]>> : x \in 0..N-1, y \in 0..N-1, o \in {<<30, 10>>, <<10, 30>>, <<41, 11>>, <<23, 47>>}}
W(c, p) == Wind(Edges(c), p)
Clear(p) == \A c \in {S, C} : LET E == Edges(c) IN \A i \in DOMAIN E : ClearOf(E[i], p, 1)
R(s, c, op, rule, p) == Combine(op, Filled(rule, W(s, p)), Filled(rule, W(c, p)))

(* ------------------------- presentation (C06) ------------------------- *)
Rot(c) == [i \in DOMAIN c |-> c[(i % Len(c)) + 1]]
Rev(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i]]
Cut(c) == <<c[1], <<(c[1][1] + c[2][1]) \div 2, (c[1][2] + c[2][2]) \div 2>>>> \o SubSeq(c, 2, Len(c))
Rep(c) == c \o <<c[1]>>
Presentation == Chosen => \A p \in SM : Clear(p) =>
  LET ws == W(S, p)  wc == W(C, p) IN
  /\ W(Rot(S), p) = ws /\ W(Cut(S), p) = ws /\ W(Rep(S), p) = ws /\ W(Rev(S), p) = -ws
  /\ WindOf(<<S, C>>, p) = ws + wc /\ WindOf(<<C, S>>, p) = ws + wc
  /\ \A rule \in Rules : Filled(rule, ws) = Filled(IF rule >= 2 THEN 5 - rule ELSE rule, -ws)
  /\ \A rule \in Rules, op \in {Intersection, Union, Xor} :
       Combine(op, Filled(rule, ws), Filled(rule, wc)) = Combine(op, Filled(rule, wc), Filled(rule, ws))

(* ------------------------- transforms (C07) --------------------------- *)
Map(c, F(_)) == [i \in DOMAIN c |-> F(c[i])]
Shift(p) == <<p[1] - 137, p[2] - 91>>
Scale(p) == <<3 * p[1], 3 * p[2]>>
Turn(p)  == <<-p[2], p[1]>>
Flip(p)  == <<-p[1], p[2]>>
Transforms == Chosen => \A p \in SM : Clear(p) =>
  LET ws == W(S, p) IN
  /\ W(Map(S, Shift), Shift(p)) = ws /\ W(Map(S, Scale), Scale(p)) = ws
  /\ W(Map(S, Turn), Turn(p)) = ws /\ W(Map(S, Flip), Flip(p)) = -ws

(* ------------------------- measure (C19) ------------------------------ *)
\* counting measure over the sample points
Measure == Chosen =>
  LET ws == TLCEval([p \in SM |-> W(S, p)])
      wc == TLCEval([p \in SM |-> W(C, p)])
      Count(op, rule) == Cardinality({p \in SM : Combine(op, Filled(rule, ws[p]), Filled(rule, wc[p]))})
      Back(rule) == Cardinality({p \in SM : Combine(Difference, Filled(rule, wc[p]), Filled(rule, ws[p]))})
      One(w, rule) == Cardinality({p \in SM : Filled(rule, w[p])})
  IN \A rule \in Rules :
  /\ Count(Union, rule) = Count(Intersection, rule) + Count(Xor, rule)
  /\ Count(Xor, rule) = Count(Difference, rule) + Back(rule)
  /\ One(ws, rule) = Count(Intersection, rule) + Count(Difference, rule)
  /\ One(wc, rule) = Count(Intersection, rule) + Back(rule)

(* ------------------------- boundary form (C03) ------------------------ *)
\* For rectilinear S and C every grid cell is inside or outside as a whole.  The
\* cell edges between an inside and an outside cell, directed with the inside on
\* the left, leave every grid vertex as often as they enter it, so they form
\* closed contours, and these wind once around the region and never elsewhere.
Cell(x, y) == <<x * Unit + 30, y * Unit + 10>>
Bnd(In_) ==
     {<<x, y, x + 1, y>> : <<x, y>> \in {<<x, y>> \in (0..N-1) \X (0..N) : In_[x, y] /\ ~In_[x, y - 1]}}
  \cup {<<x + 1, y, x, y>> : <<x, y>> \in {<<x, y>> \in (0..N-1) \X (0..N) : ~In_[x, y] /\ In_[x, y - 1]}}
  \cup {<<x, y + 1, x, y>> : <<x, y>> \in {<<x, y>> \in (0..N) \X (0..N-1) : In_[x, y] /\ ~In_[x - 1, y]}}
  \cup {<<x, y, x, y + 1>> : <<x, y>> \in {<<x, y>> \in (0..N) \X (0..N-1) : ~In_[x, y] /\ In_[x - 1, y]}}
BoundaryForm == Chosen =>
  LET ws == TLCEval([x \in 0..N-1, y \in 0..N-1 |-> W(S, Cell(x, y))])
      wc == TLCEval([x \in 0..N-1, y \in 0..N-1 |-> W(C, Cell(x, y))])
  IN \A rule \in Rules, op \in Ops :
    LET In == TLCEval([x \in -1..N, y \in -1..N |-> /\ x \in 0..N-1 /\ y \in 0..N-1
                          /\ Combine(op, Filled(rule, ws[x, y]), Filled(rule, wc[x, y]))])
        B == TLCEval(Bnd(In))
        E == TLCEval(SetToSeq({<<e[1] * Unit, e[2] * Unit, e[3] * Unit, e[4] * Unit>> : e \in B}))
    IN /\ \A v \in (0..N) \X (0..N) : Cardinality({e \in B : <<e[1], e[2]>> = v}) = Cardinality({e \in B : <<e[3], e[4]>> = v})
       /\ \A x \in 0..N-1, y \in 0..N-1 : Wind(E, Cell(x, y)) = IF In[x, y] THEN 1 ELSE 0
=============================================================================
