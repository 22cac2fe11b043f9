------------------------------- MODULE SweepMC -------------------------------
(***************************************************************************)
(* Sweep over every small input, against the meaning of River: the counts  *)
(* select exactly the borders of the result, stitching always joins left   *)
(* ends to right ends, and the closed contours wind once around every      *)
(* point of the result and never around another.  Emit prints the inputs   *)
(* with the strips every question must yield; the driver replays them.     *)
(***************************************************************************)
EXTENDS Sweep
CONSTANTS W,        \* columns 0..W
          Slant,    \* how far an edge may lean within a beam
          Letters,  \* edges per beam
          Depth,    \* beams
          QOps, QRules, Types, Emit

Place == {p \in (0..W) \X (0..W) : Abs(p[1] - p[2]) <= Slant}
Letter == [ty : Types, d : {-1, 1}, b : 0..W, t : 0..W]
RECURSIVE WordsOf(_)
WordsOf(n) ==
  IF n = 0 THEN { << >> }
  ELSE UNION { {Append(u, [ty |-> ty, d |-> d, b |-> p[1], t |-> p[2]]) : ty \in Types, d \in {-1, 1},
                 p \in {q \in Place : u = << >> \/ (Last(u).b <= q[1] /\ Last(u).t <= q[2])}} : u \in WordsOf(n - 1) }
Zero(w) == \A ty \in Types : WindUpTo(w, ty, Len(w)) = 0
Words == TLCEval(UNION {{w \in WordsOf(n) : Zero(w)} : n \in {k \in 1..Letters : k % 2 = 0}})

Init == \E o \in QOps, r \in QRules : SInit(o, r)
Over == beams # << >> /\ Last(beams) = << >>
Next == \/ ~Over /\ Len(beams) < Depth /\ \E w \in Words : Beam(w)
        \/ ~Over /\ beams # << >> /\ Beam(<< >>)
Spec == Init /\ [][Next]_svars

(* --------------------------------- laws -------------------------------- *)
\* an edge contributes iff it separates a strip of the result from one outside it
Separates == beams # << >> => LET w == Last(beams) IN
  \A i \in DOMAIN w : Contributes(w, op, rule, i) <=> (Inside(w, op, rule, i - 1) # Inside(w, op, rule, i))
Stitches == ok
Nothing == Over => bounds = << >> /\ DOMAIN outs = {}
\* every bound is the end of exactly one side of an open output
Paired == \A o \in DOMAIN outs : \A s \in BOOLEAN : Cardinality({i \in DOMAIN bounds : bounds[i].out = o /\ bounds[i].left = s}) = 1
Alternate == \A i \in DOMAIN bounds : bounds[i].left = (i % 2 = 1)

EdgesOfDone == LET one(c) == [i \in DOMAIN c |-> LET p == c[i] q == c[IF i = Len(c) THEN 1 ELSE i + 1] IN <<4 * p[1], 4 * p[2], 4 * q[1], 4 * q[2]>>]
               IN  FoldLeft(LAMBDA a, c : a \o one(c), << >>, done)
\* a point between neighbouring edges in the middle of a beam
Gaps == {g \in UNION {{<<k, i>> : i \in 1..(Len(beams[k]) - 1)} : k \in DOMAIN beams} : LET e == beams[g[1]][g[2]] f == beams[g[1]][g[2] + 1] IN e.b + e.t < f.b + f.t}
At(g) == LET e == beams[g[1]][g[2]] f == beams[g[1]][g[2] + 1] IN <<e.b + e.t + f.b + f.t, 4 * (g[1] - 1) + 2>>
Faithful == (Over /\ ok) => LET E == EdgesOfDone IN \A g \in Gaps : Wind(E, At(g)) = (IF Inside(beams[g[1]], op, rule, g[2]) THEN 1 ELSE 0)

Masks == [q \in 1..16 |-> [k \in DOMAIN beams |-> [i \in DOMAIN beams[k] |-> IF Inside(beams[k], 1 + (q - 1) \div 4, (q - 1) % 4, i) THEN 1 ELSE 0]]]
Emitted == (Emit /\ Over /\ op = 1 /\ rule = 0) =>
  PrintT(<<"WORDS", ToString([k \in DOMAIN beams |-> [i \in DOMAIN beams[k] |-> LET e == beams[k][i] IN <<e.ty, e.d, e.b, e.t>>]]), ToString(Masks)>>)
=============================================================================
