------------------------------ MODULE BigTest ------------------------------
EXTENDS Big
VARIABLE x
Vals == {-8193, -8192, -8191, -77, -1, 0, 1, 2, 8191, 8192, 8193, 46340, 1000003}
Small == {-8193, -8192, -100, -1, 0, 1, 99, 8191, 8192}
ASSUME \A a \in Vals, b \in Vals : BAdd(BI(a), BI(b)) = BI(a + b) /\ BSub(BI(a), BI(b)) = BI(a - b) /\ (BLt(BI(a), BI(b)) <=> a < b)
ASSUME \A a \in Small, b \in Small : BMul(BI(a), BI(b)) = BI(a * b)
Big3 == {<<1, 5, 8191, 8191, 1>>, <<-1, 0, 0, 1>>, <<1, 8191, 8191, 8191, 8191, 8191, 8191>>, <<-1, 1, 2, 3, 4, 5>>, BPow2(40)}
ASSUME \A a \in Big3, b \in Big3, c \in Big3 : /\ BMul(a, BAdd(b, c)) = BAdd(BMul(a, b), BMul(a, c)) /\ BMul(a, b) = BMul(b, a)
   /\ BMul(a, BMul(b, c)) = BMul(BMul(a, b), c) /\ BSub(BAdd(a, b), b) = a
ASSUME BMul(BPow2(40), BPow2(33)) = BPow2(73)
Init == x = 0
Next == UNCHANGED x
=============================================================================
