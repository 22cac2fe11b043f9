------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Recording and traversing paths, and the text form of paths.             *)
(* A path is a sequence of elements <<kind, numbers>>; kinds 1 move,       *)
(* 2 line, 3 cubic.  Numbers are opaque here (indices of a table of        *)
(* doubles, or decimal numbers when they come from text).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NumCount(kind) == IF kind = 3 THEN 6 ELSE 2
EndOf(e) == <<e[2][NumCount(e[1]) - 1], e[2][NumCount(e[1])]>>
\* start point of the i-th element; the origin before the first
FromOf(p, i, origin) == IF i = 1 THEN origin ELSE EndOf(p[i - 1])
\* the callbacks of a traversal: <<kind, from, numbers>>; mask is the set of kinds with a callback
Visits(p, mask, origin) ==
  LET all == [i \in 1..Len(p) |-> <<p[i][1], FromOf(p, i, origin), p[i][2]>>]
  IN  SelectSeq(all, LAMBDA v : v[1] \in mask)

(* ---------------------- the stored form of a path --------------------- *)
\* kinds and one flat list of numbers, as path keeps them
RECURSIVE Decode(_, _)
Decode(kinds, data) ==
  IF kinds = <<>> THEN <<>>
  ELSE LET n == NumCount(kinds[1])
       IN  <<<<kinds[1], SubSeq(data, 1, n)>>>> \o Decode(Tail(kinds), SubSeq(data, n + 1, Len(data)))

(* ---------------------- text ------------------------------------------ *)
\* characters are codes
cm == 109  cl == 108  ca == 97  cc == 99  ce == 101  cE == 69
plus == 43  minus == 45  dot == 46
Space == {9, 10, 11, 12, 13, 32}
Digit == 48..57
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Skip(_, _)
Skip(s, i) == IF At(s, i) \in Space THEN Skip(s, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(s, i) == IF At(s, i) \in Digit THEN Digits(s, i + 1) ELSE i      \* first position behind the digits
Cut(s, i, j) == [k \in 1..(j - i) |-> s[i + k - 1] - 48]                \* digit values of s[i..j-1]
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d

\* decimal number 0.d1 d2 d3... * 10^exp, d1 # 0, last digit # 0; zero is <<1, <<>>, 0>>
Norm(sg, d, e) ==
  LET z == Strip(d)
  IN  IF z = <<>> THEN <<1, <<>>, 0>> ELSE <<sg, Trim(z), e + Len(z)>>

NoNum == [ok |-> FALSE, next |-> 0, v |-> <<>>]
\* a number starting exactly at i
Number(s, i) ==
  LET signed == At(s, i) \in {plus, minus}
      a == IF signed THEN i + 1 ELSE i
      b == Digits(s, a)
      hasdot == At(s, b) = dot
      f == IF hasdot THEN b + 1 ELSE b
      g == IF hasdot THEN Digits(s, f) ELSE b
      isexp == At(s, g) \in {ce, cE}
      h == IF isexp /\ At(s, g + 1) \in {plus, minus} THEN g + 2 ELSE g + 1
      k == Digits(s, h)
      exp == isexp /\ k > h
      e == IF exp THEN (IF h = g + 2 /\ s[g + 1] = minus THEN -1 ELSE 1) * Value(Strip(Cut(s, h, k))) ELSE 0
  IN  IF b = a /\ g = f THEN NoNum
      ELSE [ok |-> TRUE, next |-> IF exp THEN k ELSE g,
            v |-> Norm(IF signed /\ s[i] = minus THEN -1 ELSE 1, Cut(s, a, b) \o Cut(s, f, g), e - (g - f))]

\* n numbers after i, white space free
RECURSIVE Numbers(_, _, _, _)
Numbers(s, i, n, got) ==
  IF n = 0 THEN [ok |-> TRUE, next |-> i, v |-> got]
  ELSE LET r == Number(s, Skip(s, i))
       IN  IF ~r.ok THEN [ok |-> FALSE, next |-> 0, v |-> got] ELSE Numbers(s, r.next, n - 1, Append(got, r.v))

\* the paths of a text
RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, i, ps) ==
  LET j == Skip(s, i)
      c == At(s, j)
      want == CASE c = cm -> 2 [] c = cl -> 2 [] c = cc -> 6 [] c = ca -> 4 [] OTHER -> -1
      r == IF want < 0 THEN NoNum ELSE Numbers(s, j + 1, want, <<>>)
  IN  IF ~r.ok THEN ps
      ELSE ParseFrom(s, r.next,
             CASE c = cm -> Append(ps, <<<<1, r.v>>>>)
               [] c = ca -> ps
               [] OTHER -> IF ps = <<>> THEN ps
                           ELSE [ps EXCEPT ![Len(ps)] = Append(@, <<IF c = cl THEN 2 ELSE 3, r.v>>)])
Parse(s) == ParseFrom(s, 1, <<>>)
=============================================================================
