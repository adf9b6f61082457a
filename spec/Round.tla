------------------------------- MODULE Round -------------------------------
(* Which precision applies to which number, and what rounding may do to it.
   The numbers are exact: <<i, a, b, c>> stands for i + a/10^6 + b/10^12 + c/10^18.
   A record is one run of the cleaner: the options given and, for every numeric
   attribute that is on both sides of an element, its numbers before and after. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Options, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos
vars == <<rec, pos>>
R == Trace[rec]
Ev == R.e[pos]

M == 1000000
Zero == <<0, 0, 0, 0>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4]>>
Scale(n, x) == <<n * x[1], n * x[2], n * x[3], n * x[4]>>
\* every limb but the first in 0 .. 10^6 - 1
Norm(x) ==
  LET b == x[3] + (x[4] \div M)
      a == x[2] + (b \div M)
  IN <<x[1] + (a \div M), a % M, b % M, x[4] % M>>
LessEq(x, y) ==
  LET p == Norm(x)  q == Norm(y)
      d == {k \in 1..4 : p[k] # q[k]}
  IN d = {} \/ LET k == CHOOSE k \in d : \A j \in d : k <= j IN p[k] < q[k]
Within(x, y, bound) == LessEq(Minus(x, y), bound) /\ LessEq(Minus(y, x), bound)

Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000
\* half a unit of the p-th decimal; nothing is written with more than 11 decimals, so
\* numbers of 12 are rounded twice
Most == 11
Half(p) ==
  CASE p = 12 -> <<0, 0, 5, 500000>>
    [] p \in 0..5 -> Norm(<<0, 5 * Pow10(5 - p), 0, 0>>)
    [] p \in 6..11 -> Norm(<<0, 0, 5 * Pow10(11 - p), 0>>)

Coordinates == {"x", "y", "dx", "dy", "x1", "y1", "x2", "y2", "r", "rx", "ry", "cx", "cy", "fx", "fy", "width", "height", "stroke-dasharray"}
Properties == {"stroke-dashoffset", "stroke-miterlimit", "stroke-width", "opacity", "fill-opacity", "flood-opacity",
               "stroke-opacity", "stop-opacity", "font-size"}
PathData == {"d", "points", "viewBox"}
Transforms == {"transform", "gradientTransform", "patternTransform"}

Decimals == [k \in {ToString(i) : i \in 1..12} |-> CHOOSE i \in 1..12 : ToString(i) = k]
Min2(x, y) == IF x < y THEN x ELSE y
Option(attr, k) ==
  CASE attr \in Coordinates -> "coordinates-precision"
    [] attr \in Properties -> "properties-precision"
    [] attr \in PathData -> "paths-coordinates-precision"
    [] attr \in Transforms -> IF k > 4 THEN "coordinates-precision" ELSE "transforms-precision"
    [] OTHER -> ""
Places(given, attr, k) ==
  IF Option(attr, k) = "" THEN Most ELSE Decimals[ValueOf(given, Option(attr, k))]

\* absolute coordinates of path data
Rel(c) == c \in {"m", "l", "h", "v", "c", "s", "q", "t", "a", "z"}
Args(c) ==
  CASE c \in {"M", "m", "L", "l", "T", "t"} -> 2 [] c \in {"H", "h", "V", "v"} -> 1 [] c \in {"C", "c"} -> 6
    [] c \in {"S", "s", "Q", "q"} -> 4 [] c \in {"A", "a"} -> 7 [] OTHER -> 0
\* the k-th argument of a command: is it an x (1), a y (2) or neither (0)?
Axis(c, k) ==
  CASE c \in {"H", "h"} -> 1 [] c \in {"V", "v"} -> 2
    [] c \in {"A", "a"} -> IF k = 6 THEN 1 ELSE IF k = 7 THEN 2 ELSE 0
    [] OTHER -> IF k % 2 = 1 THEN 1 ELSE 2
RECURSIVE Absolute(_, _, _, _, _, _, _)
Absolute(cs, as, j, o, cur, start, acc) ==
  IF j > Len(cs) THEN acc
  ELSE
    LET c == cs[j]
        n == Args(c)
                base(k) == IF ~Rel(c) THEN Zero ELSE CASE Axis(c, k) = 1 -> cur[1] [] Axis(c, k) = 2 -> cur[2] [] OTHER -> Zero
        here == [k \in 1..n |-> Norm(Plus(as[o + k], base(k)))]
        last(ax) == IF \E k \in 1..n : Axis(c, k) = ax THEN here[CHOOSE k \in 1..n : Axis(c, k) = ax /\ \A m \in (k + 1)..n : Axis(c, m) # ax] ELSE cur[ax]
        to == IF n = 0 THEN start ELSE <<last(1), last(2)>>
    IN Absolute(cs, as, j + 1, o + n, to, IF c \in {"M", "m"} THEN to ELSE start,
                acc \o IF c \in {"H", "h", "V", "v"} THEN to ELSE here)

Upper(c) ==
  CASE c = "m" -> "M" [] c \in {"l", "h", "v", "H", "V"} -> "L" [] c = "c" -> "C" [] c = "s" -> "S"
    [] c = "q" -> "Q" [] c = "t" -> "T" [] c = "a" -> "A" [] c = "z" -> "Z" [] OTHER -> c
\* path data is compared number by number, or by the places it leads to when other
\* commands are used
Moved == Ev.a = "d" /\ Ev.ic # Ev.oc
In == IF Moved THEN Absolute(Ev.ic, Ev.i, 1, 0, <<Zero, Zero>>, <<Zero, Zero>>, <<>>) ELSE Ev.i
Out == IF Moved THEN Absolute(Ev.oc, Ev.o, 1, 0, <<Zero, Zero>>, <<Zero, Zero>>, <<>>) ELSE Ev.o

\* floating point: a few units of the 16th digit; relative coordinates are differences of
\* rounded ones, each written with up to 11 decimals
Abs1(v) == IF v < 0 THEN -v ELSE v
Noise(x, n) == Norm(<<0, 0, 5 * n, 2000 * (Abs1(x[1]) + 1)>>)
Steps == IF Moved THEN Len(Ev.oc) ELSE 0
\* each relative number of the input was rounded by itself
Units == 1 + IF Moved THEN Cardinality({j \in 1..Len(Ev.ic) : Rel(Ev.ic[j]) /\ Ev.ic[j] # "z"}) ELSE 0
Close(x, y, k) == Within(x, y, Norm(Plus(Scale(Units, Half(Places(R.g, Ev.a, k))), Noise(x, Steps))))

Must(ok, clause, info) ==
  IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson([rec |-> R.id, ev |-> pos, clause |-> clause, info |-> info]))

Start == pos = 0 /\ pos' = 1 /\ UNCHANGED rec
\* one attribute: as many numbers as before, none altered by more than rounding, none with more decimals
Number ==
  /\ pos \in 1..Len(R.e)
  /\ LET i == In  o == Out
         same == Len(i) = Len(o) /\ (Ev.a = "d" => Len(Ev.ic) = Len(Ev.oc) /\ \A j \in 1..Len(Ev.ic) : Upper(Ev.ic[j]) = Upper(Ev.oc[j]))
     IN /\ Must(same, "numbers", <<Ev.t, Ev.a>>)
        /\ IF ~same THEN TRUE
           ELSE LET bad == {k \in 1..Len(i) : ~Close(i[k], o[k], k)}
                    long == {k \in 1..Len(Ev.dec) : Option(Ev.a, k) # "" /\ Ev.dec[k] > Min2(Most, Places(R.g, Ev.a, k))}
                IN /\ Must(bad = {}, "altered", <<Ev.t, Ev.a, bad>>)
                   /\ Must(long = {}, "decimals", <<Ev.t, Ev.a, long>>)
  /\ pos' = pos + 1
  /\ UNCHANGED rec

Init == rec \in 1..Len(Trace) /\ pos = 0
Next == Start \/ Number
Spec == Init /\ [][Next]_vars
=============================================================================
