-------------------------------- MODULE RiverMC -------------------------------
(***************************************************************************)
(* Bounded exploration of River: all histories of creating, filling,       *)
(* querying and destroying a few processors over a small library of        *)
(* contours.  TLC checks the laws below in every state, and (Emit) prints  *)
(* every complete history with the answers the specification prescribes,   *)
(* which the driver then replays on the real library.                      *)
(***************************************************************************)
EXTENDS River
CONSTANTS Ids,       \* processor names
          Shapes,      \* indices of library contours in use
          QOps, QRules, Types,
          MaxSteps,  \* length of a history
          MaxAdd,    \* contours per processor
          Emit       \* print complete histories

U == 60
P(x, y) == <<x * U, y * U>>
Lib == << << P(0,0), P(4,0), P(4,4), P(0,4) >>,                     \* square, counter-clockwise
          << P(2,1), P(2,5), P(6,5), P(6,1) >>,                     \* overlapping square, clockwise
          << P(1,0), P(5,4), P(5,0), P(1,4) >>,                     \* bow tie
          << P(1,1), P(3,1), P(3,3), P(1,3) >>,                     \* inside the first one
          << P(0,0), P(3,6), P(6,0), P(0,4), P(6,4) >>,             \* five-pointed star
          << P(4,0), P(6,0), P(6,4), P(4,4), P(4,2), P(2,2), P(4,2) >> >>  \* shares an edge with the first, has a spike
SM == << <<30,10>>, <<90,95>>, <<140,200>>, <<150,50>>, <<185,130>>, <<225,105>>, <<230,215>>, <<272,200>>, <<275,15>>, <<310,200>>, <<340,290>>, <<178,310>>, <<20,350>>, <<38,190>>, <<255,75>> >>
W6 == TLCEval([c \in DOMAIN Lib |-> WindVec(EdgesOfAll(<<Lib[c]>>), SM)])

VARIABLES hist      \* steps so far, queries with their answers
vars == <<procs, hist>>

\* procs holds indices into Lib here
Sum(cs, k) == FoldLeft(LAMBDA a, c : a + W6[c][k], 0, cs)
Answer(pr, op, rule) == [k \in DOMAIN SM |-> IF Combine(op, Filled(rule, Sum(pr.subj, k)), Filled(rule, Sum(pr.clip, k))) THEN 1 ELSE 0]

Init == RInit /\ hist = << >>
Size(p) == Len(procs[p].subj) + Len(procs[p].clip)
Room == Len(hist) < MaxSteps
DoNew == \E p \in Ids : New(p) /\ (\A q \in Ids : q < p => q \in Live) /\ hist' = Append(hist, <<"N", p>>)
DoAdd == \E p \in Live, ty \in Types, c \in Shapes : Size(p) < MaxAdd /\ Add(p, ty, <<c>>) /\ hist' = Append(hist, <<"A", p, ty, c>>)
DoProc == \E p \in Live, op \in QOps, rule \in QRules :
            Size(p) > 0 /\ Process(p, op, rule) /\ hist' = Append(hist, <<"P", p, op, rule, Answer(procs[p], op, rule)>>)
DoDel == \E p \in Live : Cardinality(Live) > 1 /\ Destroy(p) /\ hist' = Append(hist, <<"D", p>>)
Next == Room /\ (DoNew \/ DoAdd \/ DoProc \/ DoDel)
Spec == Init /\ [][Next]_vars

(* ------------------------------ laws ---------------------------------- *)
TypeOK == \A p \in Live : Len(procs[p].subj) <= MaxAdd /\ Len(procs[p].clip) <= MaxAdd

\* a processor's state is a function of its own calls since its creation
Mine(p) == LET h == SelectSeq(hist, LAMBDA s : s[2] = p)
               b == {i \in DOMAIN h : h[i][1] = "N"}
               s == CHOOSE i \in b : \A j \in b : j <= i
           IN  SubSeq(h, s, Len(h))
Isolated == \A p \in Live :
  LET m == Mine(p)
      pick(ty) == LET a == SelectSeq(m, LAMBDA s : s[1] = "A" /\ s[3] = ty) IN [i \in DOMAIN a |-> a[i][4]]
  IN  procs[p].subj = pick(Subject) /\ procs[p].clip = pick(Clip)

\* the answer to a query is that of a fresh processor given the same contours, whatever was asked before
LastStep == hist[Len(hist)]
PureQuery == (Len(hist) > 0 /\ LastStep[1] = "P") =>
  LET p == LastStep[2]
      fresh == [subj |-> procs[p].subj, clip |-> procs[p].clip]
  IN  /\ LastStep[5] = Answer(fresh, LastStep[3], LastStep[4])
      /\ \A i \in DOMAIN hist : (hist[i][1] = "P" /\ hist[i][2] = p /\ hist[i][3] = LastStep[3] /\ hist[i][4] = LastStep[4]
            /\ \A j \in i..Len(hist) : ~(hist[j][2] = p /\ hist[j][1] \in {"A", "N"})) => hist[i][5] = LastStep[5]

\* order of addition does not matter
Unordered == \A p \in Live : LET r == [subj |-> Reverse(procs[p].subj), clip |-> Reverse(procs[p].clip)]
  IN \A op \in QOps, rule \in QRules : Answer(r, op, rule) = Answer(procs[p], op, rule)

SamplesClear == \A c \in DOMAIN Lib : \A k \in DOMAIN SM : ClearVec(EdgesOfAll(<<Lib[c]>>), SM, 2)[k]

Emitted == (Emit /\ (Len(hist) = MaxSteps) /\ LastStep[1] = "P") => PrintT(<<"SCRIPT", ToString(hist)>>)
=============================================================================
