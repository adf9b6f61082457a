-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic with four decimals (S = 10000), saturating at BIG,
   so that every definition below stays inside TLC's 32-bit integers whatever
   numbers a document contains.  Affine matrices <<a,b,c,d,e,f>> act by
   x' = a x + c y + e,  y' = b x + d y + f. *)
EXTENDS Integers, Sequences, TLC

S == 10000
BIG == 1000000000

Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Clamp(x) == IF x > BIG THEN BIG ELSE IF x < -BIG THEN -BIG ELSE x
Add(a, b) == Clamp(a + b)
Sub(a, b) == Clamp(a - b)

MulPos(a, b) ==
  LET ah == a \div 100  al == a % 100
      bh == b \div 100  bl == b % 100
  IN IF bh > 0 /\ ah > BIG \div bh THEN BIG
     ELSE Clamp(ah * bh + (ah * bl + al * bh) \div 100 + (((ah * bl + al * bh) % 100) * 100 + al * bl + 5000) \div 10000)

Mul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF a = S THEN b
  ELSE IF b = S THEN a
  ELSE IF (a < 0) = (b < 0) THEN MulPos(Abs(a), Abs(b))
  ELSE -MulPos(Abs(a), Abs(b))

\* a / b for b # 0
RECURSIVE DivFrac(_, _, _, _)
DivFrac(r, b, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET r10 == r * 10 IN DivFrac(r10 % b, b, n - 1, acc * 10 + (r10 \div b))
DivPos(a, b) ==
  IF b > 100000000 THEN DivFrac((a \div 16) % (b \div 16), b \div 16, 4, (a \div 16) \div (b \div 16))
  ELSE LET q == a \div b IN IF q >= BIG \div S THEN BIG ELSE DivFrac(a % b, b, 4, q)
Div(a, b) ==
  IF (a < 0) = (b < 0) THEN DivPos(Abs(a), Abs(b)) ELSE -DivPos(Abs(a), Abs(b))

RECURSIVE SqrtBin(_, _, _)
SqrtBin(v, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF MulPos(mid, mid) <= v THEN SqrtBin(v, mid, hi) ELSE SqrtBin(v, lo, mid)
Sqrt(v) == IF v <= 0 THEN 0 ELSE IF v = S THEN S ELSE SqrtBin(v, 0, 3200000)

\* cosine / tangent of whole degrees, linear interpolation in between
CosTab == <<10000,9998,9994,9986,9976,9962,9945,9925,9903,9877,9848,9816,9781,9744,9703,9659,9613,9563,9511,9455,9397,9336,9272,9205,9135,9063,8988,8910,8829,8746,8660,8572,8480,8387,8290,8192,8090,7986,7880,7771,7660,7547,7431,7314,7193,7071,6947,6820,6691,6561,6428,6293,6157,6018,5878,5736,5592,5446,5299,5150,5000,4848,4695,4540,4384,4226,4067,3907,3746,3584,3420,3256,3090,2924,2756,2588,2419,2250,2079,1908,1736,1564,1392,1219,1045,872,698,523,349,175,0>>
TanTab == <<0,175,349,524,699,875,1051,1228,1405,1584,1763,1944,2126,2309,2493,2679,2867,3057,3249,3443,3640,3839,4040,4245,4452,4663,4877,5095,5317,5543,5774,6009,6249,6494,6745,7002,7265,7536,7813,8098,8391,8693,9004,9325,9657,10000,10355,10724,11106,11504,11918,12349,12799,13270,13764,14281,14826,15399,16003,16643,17321,18040,18807,19626,20503,21445,22460,23559,24751,26051,27475,29042,30777,32709,34874,37321,40108,43315,47046,51446,56713>>
Interp(tab, a) ==
  LET d == a \div S  f == a % S
  IN IF f = 0 \/ d + 2 > Len(tab) THEN tab[d + 1] ELSE tab[d + 1] + Mul(tab[d + 2] - tab[d + 1], f)
Norm360(a) == a % (360 * S)
Cos(a) ==
  LET n == Norm360(a)
      m == IF n > 180 * S THEN 360 * S - n ELSE n
  IN IF m <= 90 * S THEN Interp(CosTab, m) ELSE -Interp(CosTab, 180 * S - m)
Sin(a) == Cos(a - 90 * S)
Tan(a) == IF a >= 0 THEN (IF a <= 80 * S THEN Interp(TanTab, a) ELSE BIG) ELSE (IF a >= -80 * S THEN -Interp(TanTab, -a) ELSE -BIG)

Id6 == <<S, 0, 0, S, 0, 0>>
MMul(m, n) ==     \* m after n: first n, then m
  IF m = Id6 THEN n ELSE IF n = Id6 THEN m ELSE
  << Add(Mul(m[1], n[1]), Mul(m[3], n[2])), Add(Mul(m[2], n[1]), Mul(m[4], n[2])),
     Add(Mul(m[1], n[3]), Mul(m[3], n[4])), Add(Mul(m[2], n[3]), Mul(m[4], n[4])),
     Add(Add(Mul(m[1], n[5]), Mul(m[3], n[6])), m[5]), Add(Add(Mul(m[2], n[5]), Mul(m[4], n[6])), m[6]) >>
AppX(m, x, y) == Add(Add(Mul(m[1], x), Mul(m[3], y)), m[5])
AppY(m, x, y) == Add(Add(Mul(m[2], x), Mul(m[4], y)), m[6])
Det(m) == Sub(Mul(m[1], m[4]), Mul(m[2], m[3]))

\* similarity (uniform scale, rotation, possibly mirrored)
Near0(x) == Abs(x) <= 4
IsSim(m) == \/ Near0(m[1] - m[4]) /\ Near0(m[2] + m[3])
            \/ Near0(m[1] + m[4]) /\ Near0(m[2] - m[3])
ScaleOf(m) == IF m[2] = 0 /\ m[3] = 0 /\ m[1] = m[4] THEN Abs(m[1]) ELSE Sqrt(Abs(Det(m)))

\* symmetric form L L^T of the linear part: what a circle of radius 1 becomes
Gram(m) == << Add(Mul(m[1], m[1]), Mul(m[3], m[3])),
              Add(Mul(m[1], m[2]), Mul(m[3], m[4])),
              Add(Mul(m[2], m[2]), Mul(m[4], m[4])) >>

\* one transform function with its arguments
TsFun(f, a) ==
  CASE f = "matrix6" -> a
    [] f = "translate1" -> <<S, 0, 0, S, a[1], 0>>
    [] f = "translate2" -> <<S, 0, 0, S, a[1], a[2]>>
    [] f = "scale1" -> <<a[1], 0, 0, a[1], 0, 0>>
    [] f = "scale2" -> <<a[1], 0, 0, a[2], 0, 0>>
    [] f = "rotate1" -> <<Cos(a[1]), Sin(a[1]), -Sin(a[1]), Cos(a[1]), 0, 0>>
    [] f = "rotate3" ->
         MMul(<<S, 0, 0, S, a[2], a[3]>>,
              MMul(<<Cos(a[1]), Sin(a[1]), -Sin(a[1]), Cos(a[1]), 0, 0>>, <<S, 0, 0, S, -a[2], -a[3]>>))
    [] f = "skewX1" -> <<S, 0, Tan(a[1]), S, 0, 0>>
    [] f = "skewY1" -> <<S, Tan(a[1]), 0, S, 0, 0>>
    [] OTHER -> Id6
TsArity(f) ==
  CASE f = "matrix6" -> 6 [] f \in {"translate1", "scale1", "rotate1", "skewX1", "skewY1"} -> 1
    [] f \in {"translate2", "scale2"} -> 2 [] f = "rotate3" -> 3 [] OTHER -> 0
RECURSIVE TsFold(_, _, _, _, _)
TsFold(u, n, i, k, acc) ==
  IF i > Len(u) THEN acc
  ELSE LET ar == TsArity(u[i]) IN TsFold(u, n, i + 1, k + ar, MMul(acc, TsFun(u[i], SubSeq(n, k, k + ar - 1))))
\* a lexed transform value -> matrix
TsOf(v) == IF v.k = "ts" THEN TsFold(v.u, v.n, 1, 1, Id6) ELSE Id6

\* tolerant comparison of integer sequences
Close(a, b, t, r) == Abs(a - b) <= t + (Abs(a) + Abs(b)) \div r
CloseSeq(x, y, t, r) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close(x[i], y[i], t, r)
=============================================================================
