-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Exact integers of any size.  TLC's own integers have 32 bits, which is  *)
(* not enough to evaluate a cubic at a double-precision parameter without  *)
(* rounding; these are: everything stated with them is exact.              *)
(*                                                                         *)
(* A number is a sequence <<sign, d1, d2, ..., dn>>, sign in {-1, 0, 1},   *)
(* digits 0 <= d < BASE, least significant first, dn # 0.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

BASE == 8192          \* 2^13; a column of a product sums at most 31 terms
BZero == <<0>>

IAbs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o DigitsOf(n \div BASE)

\* from a TLC integer
BI(n) == IF n = 0 THEN BZero ELSE <<IF n < 0 THEN -1 ELSE 1>> \o DigitsOf(IAbs(n))

BSign(a) == a[1]
BNeg(a) == [a EXCEPT ![1] = -a[1]]
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a

\* number of digits left after dropping leading zeros of the magnitude m
RECURSIVE Trim(_, _)
Trim(m, n) == IF n = 0 THEN 0 ELSE IF m[n] # 0 THEN n ELSE Trim(m, n - 1)

Make(s, m) == LET n == Trim(m, Len(m)) IN IF n = 0 THEN BZero ELSE <<s>> \o SubSeq(m, 1, n)
Mag(a) == SubSeq(a, 2, Len(a))
Dig(a, i) == IF i + 1 <= Len(a) THEN a[i + 1] ELSE 0       \* i-th digit of a number
NDig(a) == Len(a) - 1

RECURSIVE CmpDigits(_, _, _)
CmpDigits(a, b, i) == IF i = 0 THEN 0
                      ELSE IF a[i + 1] # b[i + 1] THEN (IF a[i + 1] < b[i + 1] THEN -1 ELSE 1)
                      ELSE CmpDigits(a, b, i - 1)
\* compares magnitudes
CmpMag(a, b) == IF NDig(a) # NDig(b) THEN (IF NDig(a) < NDig(b) THEN -1 ELSE 1) ELSE CmpDigits(a, b, NDig(a))

\* carries a sequence of column values (each below 2^31 in magnitude) into digits
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, c : LET v == c + acc[2] IN << Append(acc[1], v % BASE), v \div BASE >>, << <<>>, 0 >>, cols)
  IN  IF r[2] = 0 THEN r[1] ELSE r[1] \o DigitsOf(r[2])

\* magnitudes of a and b added; of a minus b where |a| >= |b|
AddMag(a, b) == Carry([i \in 1..(IF NDig(a) > NDig(b) THEN NDig(a) ELSE NDig(b)) |-> Dig(a, i) + Dig(b, i)])
SubMag(a, b) == Carry([i \in 1..NDig(a) |-> Dig(a, i) - Dig(b, i)])

BAdd(a, b) ==
  TLCEval(IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1]>> \o AddMag(a, b)
  ELSE LET c == CmpMag(a, b)
       IN  IF c = 0 THEN BZero
           ELSE IF c > 0 THEN Make(a[1], SubMag(a, b))
           ELSE Make(b[1], SubMag(b, a)))
BSub(a, b) == BAdd(a, BNeg(b))

RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i + 1] * b[k - i + 2] + ColSum(a, b, k, i + 1, hi)

BMul(a, b) ==
  TLCEval(IF a[1] = 0 \/ b[1] = 0 THEN BZero
  ELSE LET na == NDig(a)   nb == NDig(b)
       IN  Make(a[1] * b[1],
                Carry([k \in 1..(na + nb - 1) |->
                         ColSum(a, b, k, IF k - nb + 1 > 1 THEN k - nb + 1 ELSE 1, IF k < na THEN k ELSE na)])))

BMulI(a, n) == BMul(a, BI(n))
BSum(s) == FoldLeft(BAdd, BZero, s)

BCmp(a, b) == BSign(BSub(a, b))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0

RECURSIVE BPow2(_)
BPow2(k) == IF k < 13 THEN BI(2^k) ELSE LET q == BPow2(k - 13) IN <<1, 0>> \o SubSeq(q, 2, Len(q))
BShl(a, k) == BMul(a, BPow2(k))
=============================================================================
