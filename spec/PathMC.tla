------------------------------- MODULE PathMC -------------------------------
(***************************************************************************)
(* Paths as objects: building, moving and traversing, with the flat stored *)
(* form next to the elements it stands for; and the text grammar on all    *)
(* short texts.                                                            *)
(***************************************************************************)
EXTENDS Paths
CONSTANTS Slots, MaxLen, Alphabet, TextLen
VARIABLES elems, kinds, data, text
vars == <<elems, kinds, data, text>>
Num2 == {<<1, 2>>, <<2, 1>>}
Init == elems = [i \in Slots |-> <<>>] /\ kinds = elems /\ data = elems /\ text = <<>>
Build(i, k, v) == /\ Len(elems[i]) < MaxLen
                  /\ elems' = [elems EXCEPT ![i] = Append(@, <<k, v>>)]
                  /\ kinds' = [kinds EXCEPT ![i] = Append(@, k)]
                  /\ data' = [data EXCEPT ![i] = @ \o v] /\ UNCHANGED text
\* slot j is constructed anew from slot i, which becomes empty
Move(i, j) == /\ i # j
              /\ elems' = [elems EXCEPT ![j] = elems[i], ![i] = <<>>]
              /\ kinds' = [kinds EXCEPT ![j] = kinds[i], ![i] = <<>>]
              /\ data' = [data EXCEPT ![j] = data[i], ![i] = <<>>] /\ UNCHANGED text
Type(c) == text' = Append(text, c) /\ Len(text) < TextLen /\ UNCHANGED <<elems, kinds, data>>
Next == \/ text = <<>> /\ \E i \in Slots, v \in Num2 : Build(i, 1, v) \/ Build(i, 2, v) \/ Build(i, 3, v \o v \o <<v[2], v[1]>>)
        \/ text = <<>> /\ \E i, j \in Slots : Move(i, j)
        \/ (\A i \in Slots : elems[i] = <<>>) /\ \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

\* the stored form determines the elements
Faithful == \A i \in Slots : Decode(kinds[i], data[i]) = elems[i]
\* a traversal visits the elements of the wanted kinds in order, each starting where its predecessor ended
Chained ==
  \A i \in Slots : LET v == Visits(elems[i], {1, 2, 3}, <<0, 0>>)
                   IN  /\ Len(v) = Len(elems[i])
                       /\ \A k \in 1..(Len(v) - 1) : v[k + 1][2] = EndOf(elems[i][k])
                       /\ \A m \in SUBSET {1, 2, 3} : Visits(elems[i], m, <<0, 0>>) = SelectSeq(v, LAMBDA x : x[1] \in m)

(* text *)
Want == [x \in {cm, cl, cc, ca} |-> CASE x = cm -> 2 [] x = cl -> 2 [] x = cc -> 6 [] OTHER -> 4]
\* every path begins with its only move
WellFormed == \A i \in DOMAIN Parse(text) : LET p == Parse(text)[i] IN p # <<>> /\ p[1][1] = 1 /\ \A k \in 2..Len(p) : p[k][1] # 1
\* leading and trailing white space change nothing
Blank == /\ Parse(<<32>> \o text) = Parse(text)
         /\ Parse(text \o <<32>>) = Parse(text)
\* the paths of a beginning of a text are a beginning of its paths, up to the number being typed
Growing == LET p == Parse(SubSeq(text, 1, Len(text) - 1))  q == Parse(text)
           IN  text # <<>> => /\ Len(p) <= Len(q)
                              /\ \A i \in 1..(Len(p) - 1) : p[i] = q[i]
\* what comes behind the first thing that is no command does not matter
Stops == \A c \in {120, 0} : Parse(text \o <<32, c>> \o text) = Parse(text)
\* white space between commands and numbers is free
RECURSIVE Spread(_)
Spread(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {cm, cl, cc, ca} THEN <<32, s[1], 10>> ELSE IF s[1] \in Space THEN <<32, 9>> ELSE <<s[1]>>) \o Spread(Tail(s))
Loose == Parse(Spread(text)) = Parse(text)
=============================================================================
