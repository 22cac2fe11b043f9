------------------------------- MODULE ScanMC -------------------------------
EXTENDS ScanLine
CONSTANTS W, H, N
VARIABLES items, active, events, seen
vars == <<items, active, events, seen>>
Box == {b \in (0..W) \X (0..H) \X (0..W) \X (0..H) : b[1] <= b[3] /\ b[2] <= b[4]}
Norm2(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Boxes == UNION {[1..n -> Box] : n \in 0..N}
\* positions at which something happens, from left to right
Xs(it) == {it[i][1] : i \in DOMAIN it} \cup {it[i][3] : i \in DOMAIN it}
Init == items \in Boxes /\ active = {} /\ events = {<<x, i, d>> : x \in Xs(items), i \in DOMAIN items, d \in {0, 1}} \cap {<<items[i][IF d = 0 THEN 1 ELSE 3], i, d>> : i \in DOMAIN items, d \in {0, 1}}
        /\ seen = [p \in (DOMAIN items) \X (DOMAIN items) |-> 0]
\* enter (0) before leave (1) at equal x
First(e) == \A f \in events : e[1] < f[1] \/ (e[1] = f[1] /\ e[3] <= f[3])
Step(e) == /\ First(e) /\ events' = events \ {e} /\ UNCHANGED items
           /\ IF e[3] = 0
              THEN /\ seen' = [p \in DOMAIN seen |-> IF \E c \in active : p = Norm2(c, e[2]) /\ Overlap(items[c], items[e[2]]) THEN seen[p] + 1 ELSE seen[p]]
                   /\ active' = active \cup {e[2]}
              ELSE active' = active \ {e[2]} /\ UNCHANGED seen
Next == \E e \in events : Step(e)
Spec == Init /\ [][Next]_vars
\* when the sweep is over every overlapping pair was reported once and nothing else was
Complete == events = {} => \A p \in DOMAIN seen : seen[p] = IF p \in Pairs(items) THEN 1 ELSE 0
Never2 == \A p \in DOMAIN seen : seen[p] <= 1 /\ (seen[p] = 1 => p \in Pairs(items))
Emptied == events = {} => active = {}
=============================================================================
