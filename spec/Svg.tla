-------------------------------- MODULE Svg --------------------------------
(* The abstract SVG document and its meaning.

   A document D is a record [n |-> nodes, css |-> rules] (plus `envs`, see
   WithEnv).  A node is a record
      t   tag name ("#text" for character data)
      p   index of the parent (0 for the root element, which is node 1)
      a   attribute name -> value        y  style-attribute property -> value
      c   class names                    x  characters of a text node
      ch  indices of the children
   A value is [k, s, n, u]: kind (num, col, kw, url, ref, ts, path, str),
   string part, fixed-point numbers, and units / command letters / function
   names.  The meaning of a document is its render tree: what is painted, in
   order, with every property resolved.  Ids never occur in a render tree;
   references are replaced by what they designate. *)
EXTENDS Fix, FiniteSets, SequencesExt

NoVal == [k |-> "no", s |-> "", n |-> <<>>, u |-> <<>>]
Kw(s) == [k |-> "kw", s |-> s, n |-> <<>>, u |-> <<>>]
NumV(x) == [k |-> "num", s |-> "", n |-> <<x>>, u |-> <<"">>]
LenV(x, u) == [k |-> "num", s |-> "", n |-> <<x>>, u |-> <<u>>]
ColV(s) == [k |-> "col", s |-> s, n |-> <<>>, u |-> <<>>]

-----------------------------------------------------------------------------
(* ---- tables of SVG 1.1 (propidx.html) ---- *)

Inherited == {
  "clip-rule", "color", "color-interpolation", "color-interpolation-filters", "color-rendering",
  "direction", "fill", "fill-opacity", "fill-rule", "font-family", "font-size", "font-size-adjust",
  "font-stretch", "font-style", "font-variant", "font-weight", "glyph-orientation-horizontal",
  "glyph-orientation-vertical", "image-rendering", "kerning", "letter-spacing", "marker-end",
  "marker-mid", "marker-start", "shape-rendering", "stroke", "stroke-dasharray",
  "stroke-dashoffset", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-opacity",
  "stroke-width", "text-anchor", "text-rendering", "visibility", "word-spacing", "writing-mode" }

NotInherited == {
  "alignment-baseline", "baseline-shift", "clip", "clip-path", "display", "dominant-baseline",
  "enable-background", "filter", "flood-color", "flood-opacity", "lighting-color", "mask", "opacity",
  "overflow", "stop-color", "stop-opacity", "text-decoration", "unicode-bidi" }

Props == Inherited \cup NotInherited

Initial ==
  [p \in Props |->
    CASE p \in {"fill", "stop-color", "flood-color", "color"} -> ColV("#000000")
      [] p = "lighting-color" -> ColV("#ffffff")
      [] p \in {"stroke", "marker-end", "marker-mid", "marker-start", "clip-path", "filter", "mask",
                "stroke-dasharray", "text-decoration", "font-size-adjust"} -> Kw("none")
      [] p \in {"fill-opacity", "stroke-opacity", "opacity", "flood-opacity", "stop-opacity",
                "stroke-width"} -> NumV(S)
      [] p = "stroke-miterlimit" -> NumV(4 * S)
      [] p = "stroke-dashoffset" -> NumV(0)
      [] p \in {"fill-rule", "clip-rule"} -> Kw("nonzero")
      [] p = "stroke-linecap" -> Kw("butt")
      [] p = "stroke-linejoin" -> Kw("miter")
      [] p = "display" -> Kw("inline")
      [] p = "overflow" -> NoVal
      [] p = "visibility" -> Kw("visible")
      [] p = "font-size" -> Kw("medium")
      [] p \in {"font-stretch", "font-style", "font-variant", "font-weight", "letter-spacing",
                "word-spacing", "unicode-bidi"} -> Kw("normal")
      [] p = "color-interpolation" -> Kw("sRGB")
      [] p = "color-interpolation-filters" -> Kw("linearRGB")
      [] p = "direction" -> Kw("ltr")
      [] p = "text-anchor" -> Kw("start")
      [] p = "writing-mode" -> Kw("lr-tb")
      [] p = "baseline-shift" -> Kw("baseline")
      [] p = "enable-background" -> Kw("accumulate")
      [] p = "glyph-orientation-horizontal" -> NoVal
      [] OTHER -> Kw("auto")]

Shapes == {"rect", "circle", "ellipse", "line", "polyline", "polygon", "path"}
Gradients == {"linearGradient", "radialGradient"}
TextTags == {"text", "tspan", "tref", "textPath"}

-----------------------------------------------------------------------------
(* ---- cascade ---- *)

Has(f, x) == x \in DOMAIN f

CssMatches(nd, r) ==
  CASE r.k = "any" -> TRUE
    [] r.k = "tag" -> nd.t = r.v
    [] r.k = "class" -> \E i \in 1..Len(nd.c) : nd.c[i] = r.v
    [] r.k = "id" -> Has(nd.a, "id") /\ nd.a["id"].s = r.v
    [] OTHER -> FALSE
Specificity(r) == CASE r.k = "id" -> 3 [] r.k = "class" -> 2 [] r.k = "tag" -> 1 [] OTHER -> 0

\* declaration of p that applies to node i: style attribute, then CSS by
\* specificity and order, then presentation attribute
Own(D, i, p) ==
  LET nd == D.n[i] IN
  IF Has(nd.y, p) THEN nd.y[p]
  ELSE LET ms == {j \in 1..Len(D.css) : Has(D.css[j].d, p) /\ CssMatches(nd, D.css[j])} IN
    IF ms # {} THEN
      LET best == CHOOSE j \in ms : \A m \in ms :
                    \/ Specificity(D.css[j]) > Specificity(D.css[m])
                    \/ Specificity(D.css[j]) = Specificity(D.css[m]) /\ j >= m
      IN D.css[best].d[p]
    ELSE IF Has(nd.a, p) THEN nd.a[p] ELSE NoVal

RootEnv == Initial

\* keywords that relate to the parent's value are kept with it
RelativeKw == {"larger", "smaller", "bolder", "lighter", "wider", "narrower"}
Relative(v, pv) == IF v.k = "kw" /\ v.s \in RelativeKw THEN [v EXCEPT !.n = pv.n, !.u = pv.u \o <<pv.s>>] ELSE v

\* font-size is computed at once: em and % relate to the parent's size
FontSize(v, pv) ==
  IF v.k = "num" /\ Len(v.n) = 1 /\ v.u[1] \in {"em", "%"} THEN
    IF pv.k = "num" /\ Len(pv.n) = 1 THEN
      LenV(IF v.u[1] = "em" THEN Mul(v.n[1], pv.n[1]) ELSE Mul(v.n[1] \div 100, pv.n[1]), pv.u[1])
    ELSE [v EXCEPT !.s = pv.s]
  ELSE Relative(v, pv)

\* so are all other lengths in em or ex: they relate to the font size of the
\* element that declares them (ex is taken as half an em)
FontLengths == {"stroke-width", "stroke-dasharray", "stroke-dashoffset", "letter-spacing", "word-spacing", "kerning", "baseline-shift"}
FontUnits == {"em", "ex"}
ResolveEm(v, fs) ==
  IF v.k = "num" /\ \E j \in 1..Len(v.u) : v.u[j] \in FontUnits THEN
    IF fs.k = "num" /\ Len(fs.n) = 1 THEN
      [v EXCEPT !.n = [j \in 1..Len(v.n) |-> IF v.u[j] \in FontUnits THEN Mul(IF v.u[j] = "em" THEN v.n[j] ELSE v.n[j] \div 2, fs.n[1]) ELSE v.n[j]],
                !.u = [j \in 1..Len(v.u) |-> IF v.u[j] \in FontUnits THEN fs.u[1] ELSE v.u[j]]]
    ELSE [v EXCEPT !.s = fs.s]
  ELSE v

EnvOf(D, i, penv) ==
  LET fsize == LET o == Own(D, i, "font-size") IN
               IF o.k = "no" \/ (o.k = "kw" /\ o.s = "inherit") THEN penv["font-size"] ELSE FontSize(o, penv["font-size"])
      colour == LET o == Own(D, i, "color") IN
                IF o.k = "no" \/ (o.k = "kw" /\ o.s \in {"inherit", "currentColor"}) THEN penv["color"] ELSE o
  IN TLCEval([p \in Props |->
       LET o == Own(D, i, p) IN
       IF o.k = "no" THEN (IF p \in Inherited THEN penv[p] ELSE Initial[p])
       ELSE IF o.k = "kw" /\ o.s = "inherit" THEN penv[p]
       ELSE IF o.k = "kw" /\ o.s = "currentColor" THEN colour
       ELSE IF p = "color" THEN colour
       ELSE IF p = "font-size" THEN fsize
       ELSE IF p \in FontLengths THEN ResolveEm(o, fsize)
       ELSE IF p \in {"font-weight", "font-stretch"} THEN Relative(o, penv[p])
       ELSE o])

\* environments of all nodes at their own place in the tree
RECURSIVE EnvsFrom(_, _, _)
EnvsFrom(D, i, acc) ==
  IF i > Len(D.n) THEN acc
  ELSE LET p == D.n[i].p
           e == EnvOf(D, i, IF p = 0 THEN RootEnv ELSE acc[p])
       IN EnvsFrom(D, i + 1, Append(acc, e))
WithEnv(D) == [n |-> D.n, css |-> D.css, envs |-> EnvsFrom(D, 1, <<>>)]
ParentEnv(D, i) == IF D.n[i].p = 0 THEN RootEnv ELSE D.envs[D.n[i].p]

-----------------------------------------------------------------------------
(* ---- navigation ---- *)

Attr(nd, name) == IF Has(nd.a, name) THEN nd.a[name] ELSE NoVal
AttrOr(nd, name, dflt) == IF Has(nd.a, name) THEN nd.a[name] ELSE dflt
\* the first element with that id, 0 if there is none
ById(D, id) ==
  LET s == {i \in 1..Len(D.n) : Has(D.n[i].a, "id") /\ D.n[i].a["id"].s = id}
  IN IF id = "" \/ s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
HrefOf(nd) ==
  IF Has(nd.a, "xlink:href") THEN nd.a["xlink:href"]
  ELSE NoVal
HrefTarget(D, i) == LET h == HrefOf(D.n[i]) IN IF h.k = "ref" THEN ById(D, h.s) ELSE 0

\* absolute units are multiples of the user unit
AbsUnit == [px |-> S, in |-> 96 * S, pt |-> 13333, pc |-> 16 * S, mm |-> 37795, cm |-> 377953]
ToUser(x, u) == IF u \in DOMAIN AbsUnit THEN Mul(x, AbsUnit[u]) ELSE x
RelUnit(u) == IF u \in DOMAIN AbsUnit THEN "" ELSE u
\* a single number in user units, `dflt` if absent
\* (nothing is nothing in any unit)
Plain(v) == v.k = "num" /\ Len(v.n) = 1 /\ (v.n[1] = 0 \/ RelUnit(v.u[1]) = "")
NumOr(nd, name, dflt) == LET v == Attr(nd, name) IN IF v.k = "num" /\ Len(v.n) >= 1 THEN ToUser(v.n[1], v.u[1]) ELSE dflt
UnitOf(nd, name) == LET v == Attr(nd, name) IN IF v.k = "num" /\ Len(v.u) >= 1 THEN v.u[1] ELSE ""
Unit01(v) == \* clamp an opacity / offset; percentages are fractions
  IF v.k = "num" /\ Len(v.n) >= 1 THEN
    LET x == IF v.u[1] = "%" THEN v.n[1] \div 100 ELSE v.n[1]
    IN IF x < 0 THEN 0 ELSE IF x > S THEN S ELSE x
  ELSE S

-----------------------------------------------------------------------------
(* ---- items of a render tree: discrete part s, exact numbers e (opacity,
        offset), geometric numbers n, sub-items k ---- *)

Item(s, e, n, k) == [s |-> s, e |-> e, n |-> n, k |-> k]
NoneItem == Item(<<"none">>, <<>>, <<>>, <<>>)

\* a raw attribute value as an item
RawVal(name, v) == Item(<<name, v.k, v.s>> \o v.u, v.n, <<>>, <<>>)
RawAttrs(nd, names) ==
  LET sel == SelectSeq(names, LAMBDA a : Has(nd.a, a))
  IN [j \in 1..Len(sel) |-> RawVal(sel[j], nd.a[sel[j]])]

-----------------------------------------------------------------------------
(* ---- path data ---- *)

\* segments with absolute coordinates; a subpath is [x, y, g, z]: start point,
\* segments [c, a], closed
Seg(c, a) == [c |-> c, a |-> a]
Sub0(x, y) == [x |-> x, y |-> y, g |-> <<>>, z |-> FALSE]

PathArity(c) ==
  CASE c \in {"M", "m", "L", "l", "T", "t"} -> 2 [] c \in {"H", "h", "V", "v"} -> 1
    [] c \in {"C", "c"} -> 6 [] c \in {"S", "s", "Q", "q"} -> 4 [] c \in {"A", "a"} -> 7 [] OTHER -> 0
Upper(c) ==
  CASE c = "m" -> "M" [] c = "l" -> "L" [] c = "h" -> "H" [] c = "v" -> "V" [] c = "c" -> "C"
    [] c = "s" -> "S" [] c = "q" -> "Q" [] c = "t" -> "T" [] c = "a" -> "A" [] c = "z" -> "Z" [] OTHER -> c

\* interpreter state: current point, control point of the last curve (and its
\* family), the open subpath (or none) and the finished ones
PS0 == [x |-> 0, y |-> 0, lx |-> 0, ly |-> 0, lf |-> "", open |-> FALSE, cur |-> Sub0(0, 0), done |-> <<>>]

Flush(st) == IF st.open THEN Append(st.done, st.cur) ELSE st.done
\* a drawing command after a close starts a new subpath at the same start point
Opened(st) == IF st.open THEN st ELSE [st EXCEPT !.open = TRUE, !.cur = Sub0(st.x, st.y)]
PutSeg(st0, sg, x, y, lx, ly, lf) ==
  LET st == Opened(st0) IN
  [st EXCEPT !.cur = [st.cur EXCEPT !.g = Append(@, sg)], !.x = x, !.y = y, !.lx = lx, !.ly = ly, !.lf = lf]

PathStep(st, c, a) ==
  LET rel == c # Upper(c)
      ox == IF rel THEN st.x ELSE 0
      oy == IF rel THEN st.y ELSE 0
      px(i) == Add(ox, a[i])  py(i) == Add(oy, a[i])
      \* reflection of the last control point
      rx(f) == IF st.lf = f THEN Sub(2 * st.x, st.lx) ELSE st.x
      ry(f) == IF st.lf = f THEN Sub(2 * st.y, st.ly) ELSE st.y
      u == Upper(c)
  IN CASE u = "M" -> [st EXCEPT !.done = Flush(st), !.open = TRUE, !.cur = Sub0(px(1), py(2)),
                                !.x = px(1), !.y = py(2), !.lf = ""]
       [] u = "L" -> PutSeg(st, Seg("L", <<px(1), py(2)>>), px(1), py(2), 0, 0, "")
       [] u = "H" -> PutSeg(st, Seg("L", <<px(1), st.y>>), px(1), st.y, 0, 0, "")
       [] u = "V" -> PutSeg(st, Seg("L", <<st.x, py(1)>>), st.x, py(1), 0, 0, "")
       [] u = "C" -> PutSeg(st, Seg("C", <<px(1), py(2), px(3), py(4), px(5), py(6)>>), px(5), py(6), px(3), py(4), "C")
       [] u = "S" -> PutSeg(st, Seg("C", <<rx("C"), ry("C"), px(1), py(2), px(3), py(4)>>), px(3), py(4), px(1), py(2), "C")
       [] u = "Q" -> PutSeg(st, Seg("Q", <<px(1), py(2), px(3), py(4)>>), px(3), py(4), px(1), py(2), "Q")
       [] u = "T" -> PutSeg(st, Seg("Q", <<rx("Q"), ry("Q"), px(1), py(2)>>), px(1), py(2), rx("Q"), ry("Q"), "Q")
       [] u = "A" -> PutSeg(st, Seg("A", <<Abs(a[1]), Abs(a[2]), a[3], a[4], a[5], px(6), py(7)>>), px(6), py(7), 0, 0, "")
       [] u = "Z" -> IF st.open
                     THEN [st EXCEPT !.done = Append(st.done, [st.cur EXCEPT !.z = TRUE]), !.open = FALSE,
                                     !.x = st.cur.x, !.y = st.cur.y, !.lf = ""]
                     ELSE [st EXCEPT !.lf = ""]
       [] OTHER -> st

RECURSIVE PathRun(_, _, _, _, _)
PathRun(u, n, i, k, st) ==
  IF i > Len(u) THEN Flush(st)
  ELSE LET ar == PathArity(u[i])
       IN PathRun(u, n, i + 1, k + ar, TLCEval(PathStep(st, u[i], SubSeq(n, k, k + ar - 1))))
\* lexed path value -> sequence of subpaths
Subpaths(v) == IF v.k = "path" THEN PathRun(v.u, v.n, 1, 1, PS0) ELSE <<>>

EndX(sg) == sg.a[Len(sg.a) - 1]
EndY(sg) == sg.a[Len(sg.a)]

EPS == 5
Same(x, y) == Abs(x - y) <= EPS

\* (px,py) lies on the straight segment (x0,y0)-(x1,y1)
OnSegment(x0, y0, x1, y1, px, py) ==
  /\ px >= MinI(x0, x1) - EPS /\ px <= MaxI(x0, x1) + EPS
  /\ py >= MinI(y0, y1) - EPS /\ py <= MaxI(y0, y1) + EPS
  /\ LET dx == x1 - x0  dy == y1 - y0
         cross == Sub(Mul(dx, py - y0), Mul(dy, px - x0))
     IN Abs(cross) <= MulPos(EPS, Abs(dx) + Abs(dy)) + 2

\* curves that trace a straight segment are that segment
Straighten(x, y, sg) ==
  CASE sg.c = "C" /\ OnSegment(x, y, sg.a[5], sg.a[6], sg.a[1], sg.a[2])
                  /\ OnSegment(x, y, sg.a[5], sg.a[6], sg.a[3], sg.a[4]) -> Seg("L", <<sg.a[5], sg.a[6]>>)
    [] sg.c = "Q" /\ OnSegment(x, y, sg.a[3], sg.a[4], sg.a[1], sg.a[2]) -> Seg("L", <<sg.a[3], sg.a[4]>>)
    [] OTHER -> sg

SameSeg(s1, s2) == s1.c = s2.c /\ Len(s1.a) = Len(s2.a) /\ \A i \in 1..Len(s1.a) : Same(s1.a[i], s2.a[i])

\* normal form of a subpath's segments: zero-length lines and repeated
\* identical loops are dropped (the declared tolerance of the path tasks)
RECURSIVE NormSegs(_, _, _, _, _)
NormSegs(g, i, x, y, acc) ==
  IF i > Len(g) THEN acc
  ELSE LET sg == Straighten(x, y, g[i])
           ex == EndX(sg)  ey == EndY(sg)
           zero == sg.c \in {"L", "A"} /\ Same(ex, x) /\ Same(ey, y)
           loop == Same(ex, x) /\ Same(ey, y) /\ acc # <<>> /\ SameSeg(acc[Len(acc)], sg)
                   /\ (IF Len(acc) > 1 THEN Same(EndX(acc[Len(acc) - 1]), x) /\ Same(EndY(acc[Len(acc) - 1]), y) ELSE TRUE)
       IN NormSegs(g, i + 1, ex, ey, IF zero \/ loop THEN acc ELSE Append(acc, sg))

NormSub(sp) ==
  LET g == NormSegs(sp.g, 1, sp.x, sp.y, <<>>)
      n == Len(g)
      back == n > 0 /\ g[n].c = "L" /\ Same(g[n].a[1], sp.x) /\ Same(g[n].a[2], sp.y)
  IN IF back THEN [sp EXCEPT !.g = SubSeq(g, 1, n - 1), !.z = TRUE] ELSE [sp EXCEPT !.g = g]
NormSubs(sps) == SelectSeq([i \in 1..Len(sps) |-> NormSub(sps[i])], LAMBDA sp : sp.g # <<>>)

\* with markers every vertex counts: only straightening is allowed
RECURSIVE StraightSegs(_, _, _, _, _)
StraightSegs(g, i, x, y, acc) ==
  IF i > Len(g) THEN acc
  ELSE LET sg == Straighten(x, y, g[i])
       IN StraightSegs(g, i + 1, EndX(sg), EndY(sg), Append(acc, sg))
\* a closed subpath is not closed again
Reclosed(sps, i) == i > 1 /\ sps[i].z /\ sps[i].g = <<>> /\ sps[i - 1].z /\ sps[i].x = sps[i - 1].x /\ sps[i].y = sps[i - 1].y
RECURSIVE VertexSubsFrom(_, _)
VertexSubsFrom(sps, i) ==
  IF i > Len(sps) THEN <<>>
  ELSE IF Reclosed(sps, i) THEN VertexSubsFrom(sps, i + 1)
  ELSE << [sps[i] EXCEPT !.g = StraightSegs(sps[i].g, 1, sps[i].x, sps[i].y, <<>>)] >> \o VertexSubsFrom(sps, i + 1)
VertexSubs(sps) == VertexSubsFrom(sps, 1)

\* placing a segment under a matrix; arcs become endpoint + ellipse form
ArcForm(a, m) ==
  LET r == <<Cos(a[3]), Sin(a[3]), -Sin(a[3]), Cos(a[3]), 0, 0>>
      l == MMul([m EXCEPT ![5] = 0, ![6] = 0], MMul(r, <<a[1] \div 4, 0, 0, a[2] \div 4, 0, 0>>))
      q == Gram(l)
  IN q \o << AppX(m, a[6], a[7]), AppY(m, a[6], a[7]) >>
PlaceSeg(sg, m) ==
  IF sg.c = "A" THEN
    Item(<<"A", IF sg.a[4] = 0 THEN "0" ELSE "1",
           IF (sg.a[5] = 0) = (Det(m) >= 0) THEN "0" ELSE "1">>, <<>>, ArcForm(sg.a, m), <<>>)
  ELSE Item(<<sg.c>>, <<>>,
            [i \in 1..Len(sg.a) |-> IF i % 2 = 1 THEN AppX(m, sg.a[i], sg.a[i + 1]) ELSE AppY(m, sg.a[i - 1], sg.a[i])], <<>>)
PlaceSub(sp, m) ==
  Item(<<"sub", IF sp.z THEN "closed" ELSE "open">>, <<>>, <<AppX(m, sp.x, sp.y), AppY(m, sp.x, sp.y)>>,
       [i \in 1..Len(sp.g) |-> PlaceSeg(sp.g[i], m)])
PlacePath(sps, m, markers) ==
  LET q == IF markers THEN VertexSubs(sps) ELSE NormSubs(sps)
  IN [i \in 1..Len(q) |-> PlaceSub(q[i], m)]

\* polyline / polygon points as a subpath
PolySub(v, closed) ==
  LET n == (Len(v.n) \div 2)
  IN IF v.k # "num" \/ n = 0 THEN <<>>
     ELSE << [x |-> v.n[1], y |-> v.n[2],
              g |-> [i \in 1..(n - 1) |-> Seg("L", <<v.n[2 * i + 1], v.n[2 * i + 2]>>)], z |-> closed] >>

RectSub(x, y, w, h) ==
  << [x |-> x, y |-> y, g |-> << Seg("L", <<Add(x, w), y>>), Seg("L", <<Add(x, w), Add(y, h)>>), Seg("L", <<x, Add(y, h)>>) >>, z |-> TRUE] >>

-----------------------------------------------------------------------------
(* ---- outlines ----  <<s, k>>: discrete part and placed geometry; <<>> when
   nothing is drawn.  Geometry with units that depend on the viewport or the
   font stays symbolic, with its matrix. *)

AllPlain(nd, names) == \A i \in 1..Len(names) : Attr(nd, names[i]).k = "no" \/ Plain(Attr(nd, names[i]))
\* attribute with its default made explicit, as an item
WithDflt(nd, name, d) == RawVal(name, IF Attr(nd, name).k = "num" THEN nd.a[name] ELSE d)
MItem(m) == Item(<<"matrix">>, <<>>, m, <<>>)

\* Lengths relative to the font or the viewport stay symbolic: where the
\* user-unit part of a point goes, and what becomes of the relative part.
RelGeom(nd, kind, m, pts, sizes) ==
  LET val(name) == Attr(nd, name)
      num(name) == IF val(name).k = "num" THEN ToUser(val(name).n[1], val(name).u[1]) ELSE 0
      unit(name) == IF val(name).k = "num" /\ val(name).n[1] # 0 THEN RelUnit(val(name).u[1]) ELSE ""
      abs(name) == IF unit(name) = "" THEN num(name) ELSE 0
      rel(name) == IF unit(name) = "" THEN 0 ELSE num(name)
  IN <<kind>>
     \o [i \in 1..Len(pts) |->
          Item(<<unit(pts[i][1]), unit(pts[i][2])>>, <<>>,
               << AppX(m, abs(pts[i][1]), abs(pts[i][2])), AppY(m, abs(pts[i][1]), abs(pts[i][2])),
                  Mul(m[1], rel(pts[i][1])), Mul(m[2], rel(pts[i][1])), Mul(m[3], rel(pts[i][2])), Mul(m[4], rel(pts[i][2])) >>, <<>>)]
     \o [i \in 1..Len(sizes) |->
          Item(<<unit(sizes[i])>>, <<>>, [z \in 1..4 |-> Mul(m[z], num(sizes[i]))], <<>>)]

Geometry(nd, m, markers) ==
  CASE nd.t = "path" -> <<"path">> \o PlacePath(Subpaths(Attr(nd, "d")), m, markers)
    [] nd.t = "polyline" -> <<"path">> \o PlacePath(PolySub(Attr(nd, "points"), FALSE), m, markers)
    [] nd.t = "polygon" -> <<"path">> \o PlacePath(PolySub(Attr(nd, "points"), TRUE), m, markers)
    [] nd.t = "line" ->
         IF AllPlain(nd, <<"x1", "y1", "x2", "y2">>)
         THEN <<"path">> \o PlacePath(<< [x |-> NumOr(nd, "x1", 0), y |-> NumOr(nd, "y1", 0),
                 g |-> <<Seg("L", <<NumOr(nd, "x2", 0), NumOr(nd, "y2", 0)>>)>>, z |-> FALSE] >>, m, markers)
         ELSE RelGeom(nd, "line", m, << <<"x1", "y1">>, <<"x2", "y2">> >>, <<>>)
    [] nd.t = "rect" ->
         LET w == NumOr(nd, "width", 0)  h == NumOr(nd, "height", 0)
             hasrx == Attr(nd, "rx").k = "num" /\ NumOr(nd, "rx", 0) >= 0
             hasry == Attr(nd, "ry").k = "num" /\ NumOr(nd, "ry", 0) >= 0
             rx0 == IF hasrx THEN NumOr(nd, "rx", 0) ELSE IF hasry THEN NumOr(nd, "ry", 0) ELSE 0
             ry0 == IF hasry THEN NumOr(nd, "ry", 0) ELSE IF hasrx THEN NumOr(nd, "rx", 0) ELSE 0
         IN IF w <= 0 \/ h <= 0 THEN <<>>
            ELSE IF AllPlain(nd, <<"x", "y", "width", "height", "rx", "ry">>)
            THEN LET rx == MinI(rx0, w \div 2)  ry == MinI(ry0, h \div 2)
                     corners == PlacePath(RectSub(NumOr(nd, "x", 0), NumOr(nd, "y", 0), w, h), m, markers)
                 IN IF rx = 0 \/ ry = 0 THEN <<"path">> \o corners
                    ELSE <<"rrect">> \o corners \o
                         << Item(<<"radii">>, <<>>, <<Mul(m[1], rx), Mul(m[2], rx), Mul(m[3], ry), Mul(m[4], ry)>>, <<>>) >>
            ELSE RelGeom([nd EXCEPT !.a = [z \in DOMAIN nd.a \cup {"rx", "ry"} |->
                             IF z = "rx" THEN (IF hasrx THEN nd.a["rx"] ELSE IF hasry THEN nd.a["ry"] ELSE NumV(0))
                             ELSE IF z = "ry" THEN (IF hasry THEN nd.a["ry"] ELSE IF hasrx THEN nd.a["rx"] ELSE NumV(0))
                             ELSE nd.a[z]]], "rect", m, << <<"x", "y">> >>, <<"width", "height", "rx", "ry">>)
    [] nd.t \in {"circle", "ellipse"} ->
         LET rn == IF nd.t = "circle" THEN "r" ELSE "rx"
             sn == IF nd.t = "circle" THEN "r" ELSE "ry"
             rx == NumOr(nd, rn, 0)  ry == NumOr(nd, sn, 0)
         IN IF rx <= 0 \/ ry <= 0 THEN <<>>
            ELSE IF AllPlain(nd, <<"cx", "cy", rn, sn>>)
            THEN <<"ellipse", Item(<<"ellipse">>, <<>>,
                    Gram(MMul([m EXCEPT ![5] = 0, ![6] = 0], <<rx \div 4, 0, 0, ry \div 4, 0, 0>>))
                      \o <<AppX(m, NumOr(nd, "cx", 0), NumOr(nd, "cy", 0)), AppY(m, NumOr(nd, "cx", 0), NumOr(nd, "cy", 0))>>, <<>>)>>
            ELSE RelGeom(nd, IF nd.t = "circle" THEN "circle" ELSE "ellipse", m, << <<"cx", "cy">> >>, <<rn, sn>>)
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* ---- paint servers ---- *)

\* Bounds every walk along references; chains in checked documents are shorter.
FUEL == 9

RECURSIVE GradAttr(_, _, _, _)
GradAttr(D, g, name, f) ==
  IF f = 0 \/ g = 0 \/ D.n[g].t \notin Gradients THEN NoVal
  ELSE IF Has(D.n[g].a, name) THEN D.n[g].a[name]
  ELSE LET h == HrefTarget(D, g) IN GradAttr(D, h, name, f - 1)
\* geometry is inherited only through gradients of the same kind
RECURSIVE GradGeom(_, _, _, _, _)
GradGeom(D, g, kind, name, f) ==
  IF f = 0 \/ g = 0 \/ D.n[g].t \notin Gradients THEN NoVal
  ELSE IF D.n[g].t = kind /\ Has(D.n[g].a, name) THEN D.n[g].a[name]
  ELSE GradGeom(D, HrefTarget(D, g), kind, name, f - 1)
StopsOf(D, g) == SelectSeq(D.n[g].ch, LAMBDA c : D.n[c].t = "stop")
RECURSIVE GradStops(_, _, _)
GradStops(D, g, f) ==
  IF f = 0 \/ g = 0 \/ D.n[g].t \notin Gradients THEN <<>>
  ELSE IF StopsOf(D, g) # <<>> THEN StopsOf(D, g)
  ELSE GradStops(D, HrefTarget(D, g), f - 1)

StopColor(v) == IF v.k = "col" THEN v.s ELSE "?" \o v.s

\* effective stops: offsets clamped and non-decreasing, redundant repetitions dropped
RECURSIVE StopItems(_, _, _, _, _)
StopItems(D, ss, i, prev, acc) ==
  IF i > Len(ss) THEN acc
  ELSE LET nd == D.n[ss[i]]  env == D.envs[ss[i]]
           o0 == IF Attr(nd, "offset").k = "num" THEN Unit01(Attr(nd, "offset")) ELSE 0
           o == MaxI(o0, prev)
           it == Item(<<"stop", StopColor(env["stop-color"])>>, <<o, Unit01(env["stop-opacity"])>>, <<>>, <<>>)
           dup == acc # <<>> /\ acc[Len(acc)] = it
       IN StopItems(D, ss, i + 1, o, IF dup THEN acc ELSE Append(acc, it))

Pct(v) == IF v.k = "num" /\ Len(v.u) = 1 /\ v.u[1] = "%" THEN v.n[1] \div 100 ELSE IF v.k = "num" /\ Len(v.n) = 1 THEN v.n[1] ELSE 0

GradientItem(D, g, m, op) ==
  LET kind == D.n[g].t
      units == LET v == GradAttr(D, g, "gradientUnits", FUEL) IN IF v.k = "no" THEN "objectBoundingBox" ELSE v.s
      spread == LET v == GradAttr(D, g, "spreadMethod", FUEL) IN IF v.k = "no" THEN "pad" ELSE v.s
      gts == TsOf(GradAttr(D, g, "gradientTransform", FUEL))
      dflt(name) == CASE name = "x2" -> LenV(100 * S, "%") [] name \in {"x1", "y1", "y2"} -> LenV(0, "%")
                      [] OTHER -> LenV(50 * S, "%")
      geom(name) == GradGeom(D, g, kind, name, FUEL)
      gv(name) ==
        LET v == geom(name) IN
        IF v.k = "num" THEN v
        ELSE IF name = "fx" THEN (IF geom("cx").k = "num" THEN geom("cx") ELSE dflt("cx"))
        ELSE IF name = "fy" THEN (IF geom("cy").k = "num" THEN geom("cy") ELSE dflt("cy"))
        ELSE dflt(name)
      names == IF kind = "linearGradient" THEN <<"x1", "y1", "x2", "y2">> ELSE <<"cx", "cy", "fx", "fy", "r">>
      vals == [i \in 1..Len(names) |-> gv(names[i])]
      stops == StopItems(D, GradStops(D, g, FUEL), 1, 0, <<>>)
      mm == IF units = "userSpaceOnUse" THEN MMul(m, gts) ELSE gts
      zeropct(v) == v.u = <<"%">> /\ v.n = <<0>>
      plain == \/ units = "objectBoundingBox"
               \/ \A i \in 1..Len(vals) : vals[i].u = <<"">> \/ zeropct(vals[i])
      c(i) == Pct(vals[i])
      pts == << AppX(mm, c(1), c(2)), AppY(mm, c(1), c(2)), AppX(mm, c(3), c(4)), AppY(mm, c(3), c(4)) >>
      \* where the lines of equal colour run, whatever their sense
      dx == Sub(c(3), c(1))  dy == Sub(c(4), c(2))
      nx == Sub(Mul(mm[3], dx), Mul(mm[1], dy))  ny == Sub(Mul(mm[4], dx), Mul(mm[2], dy))
      neg == nx < -4 \/ (Near0(nx) /\ ny < 0)
      geo == IF ~plain THEN Item(<<"rawgeo", units>>, <<>>, mm, [i \in 1..Len(names) |-> RawVal(names[i], vals[i])])
             ELSE IF kind = "linearGradient"
             THEN Item(<<"geo", units>>, <<>>, pts \o (IF neg THEN <<-nx, -ny>> ELSE <<nx, ny>>), <<>>)
             ELSE Item(<<"geo", units>>, <<>>, pts \o
                       (LET r == c(5) \div 4 IN Gram([z \in 1..6 |-> IF z < 5 THEN Mul(mm[z], r) ELSE 0])), <<>>)
      \* a bounding-box gradient also depends on how the element's own axes lie
      axes == IF units = "userSpaceOnUse" \/ ScaleOf(m) < 10 THEN NoneItem
              ELSE LET k == ScaleOf(m) IN Item(<<"axes">>, <<>>, <<Div(m[1], k), Div(m[2], k), Div(m[3], k), Div(m[4], k)>>, <<>>)
  IN IF stops = <<>> THEN NoneItem
     ELSE IF Len(stops) = 1 THEN Item(<<"color", stops[1].s[2]>>, <<Mul(op, stops[1].e[2])>>, <<>>, <<>>)
     ELSE Item(<<kind, spread, units, D.envs[g]["color-interpolation"].s>>, <<op>>, <<>>, <<geo, axes>> \o stops)

-----------------------------------------------------------------------------
(* ---- rendering ---- *)

Opacity(v) == Unit01(v)

NonRendered == {"defs", "linearGradient", "radialGradient", "pattern", "clipPath", "mask", "marker", "symbol",
                "filter", "style", "title", "desc", "metadata", "stop", "font", "font-face", "glyph",
                "missing-glyph", "color-profile", "cursor", "view", "#text", "altGlyphDef", "script", "tspan"}

\* what a switch chooses from: elements of SVG, but not the descriptions
SwitchKids == (NonRendered \ {"#text", "title", "desc", "metadata"})
              \cup {"rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "image", "use", "g",
                    "a", "svg", "switch", "foreignObject"}

TxtProps == <<"font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant",
  "font-weight", "letter-spacing", "word-spacing", "kerning", "text-anchor", "direction", "writing-mode",
  "glyph-orientation-horizontal", "glyph-orientation-vertical", "text-rendering", "visibility">>
\* not inherited: they belong to the text element that carries them
TxtOwn == <<"text-decoration", "baseline-shift", "dominant-baseline", "alignment-baseline", "unicode-bidi">>
TxtPos == <<"x", "y", "dx", "dy", "rotate", "textLength", "lengthAdjust", "startOffset", "method", "spacing">>

FilterAttrs == <<"in", "in2", "result", "mode", "type", "values", "operator", "k1", "k2", "k3", "k4", "order",
  "kernelMatrix", "divisor", "bias", "targetX", "targetY", "edgeMode", "kernelUnitLength", "preserveAlpha",
  "surfaceScale", "diffuseConstant", "specularConstant", "specularExponent", "scale", "xChannelSelector",
  "yChannelSelector", "stdDeviation", "radius", "dx", "dy", "baseFrequency", "numOctaves", "seed",
  "stitchTiles", "azimuth", "elevation", "tableValues", "slope", "intercept", "amplitude", "exponent", "offset",
  "z", "pointsAtX", "pointsAtY", "pointsAtZ", "limitingConeAngle", "x", "y", "width", "height", "preserveAspectRatio">>
FilterProps == <<"color-interpolation-filters", "flood-color", "flood-opacity", "lighting-color">>

FontRelative(v) == v.k = "num" /\ \E i \in 1..Len(v.u) : v.u[i] \in {"em", "ex"}

\* defaults the writer may drop
DropDflt(t, name, v) ==
  \/ name = "stdDeviation" /\ v.k = "num" /\ \A i \in 1..Len(v.n) : v.n[i] = 0
  \/ name = "slope" /\ v.k = "num" /\ v.n = <<S>>
  \* (the region of a primitive is the one of the filter when nothing else is said)
  \/ t \in {"fePointLight", "feSpotLight"} /\ name \in {"x", "y"} /\ v.k = "num" /\ v.n = <<0>>

\* Inside of a clip path (negative fuel) only geometry counts.
ClipEnv(env, f) ==
  IF f < 0 THEN TLCEval([env EXCEPT !["fill"] = ColV("#000000"), !["stroke"] = Kw("none"), !["fill-opacity"] = NumV(S),
                             !["opacity"] = NumV(S), !["mask"] = Kw("none"), !["fill-rule"] = env["clip-rule"], !["filter"] = Kw("none")])
  ELSE env
RECURSIVE RenderNode(_, _, _, _, _), RenderKids(_, _, _, _, _), PaintItem(_, _, _, _, _, _),
          EffectItem(_, _, _, _, _), TextTokens(_, _, _, _, _, _), MarkerItem(_, _, _, _, _)

RenderKids(D, i, env, m, f) ==
  LET ch == D.n[i].ch
  IN FlattenSeq([j \in 1..Len(ch) |-> RenderNode(D, ch[j], env, m, f)])

\* fill or stroke; opacity already multiplied in
PaintItem(D, env, prop, opprop, m, f) ==
  LET v == env[prop]
      op == Opacity(env[opprop])
      url == IF v.k = "url" THEN ById(D, v.s) ELSE 0
  IN IF op = 0 THEN NoneItem
     ELSE CASE v.k = "col" -> Item(<<"color", v.s>>, <<op>>, <<>>, <<>>)
       [] v.k = "kw" -> IF v.s = "none" THEN NoneItem ELSE Item(<<"paint", v.s>>, <<op>>, <<>>, <<>>)
       [] v.k = "url" ->
            IF url = 0 THEN
              (IF v.u = <<>> \/ v.u[1] = "none" THEN NoneItem
               ELSE IF v.u[1] = "currentColor" THEN Item(<<"color", env["color"].s>>, <<op>>, <<>>, <<>>)
               ELSE Item(<<"color", v.u[1]>>, <<op>>, <<>>, <<>>))
            ELSE IF D.n[url].t \in Gradients THEN
              LET it == GradientItem(D, url, m, op)
              IN IF it.s[1] = "color" /\ it.e[1] = 0 THEN NoneItem ELSE it
            ELSE IF D.n[url].t = "pattern" THEN Item(<<"pattern">>, <<op>>, <<>>, <<EffectItem(D, url, m, env, f)>>)
            ELSE Item(<<"badpaint", D.n[url].t>>, <<op>>, <<>>, <<>>)
       [] OTHER -> NoneItem

\* attributes and content of patterns and filters come through the href chain
RECURSIVE Chain(_, _, _)
Chain(D, g, fuel) ==
  LET h == HrefTarget(D, g) IN
  IF fuel = 0 \/ h = 0 \/ h = g \/ D.n[h].t # D.n[g].t THEN <<g>> ELSE <<g>> \o Chain(D, h, fuel - 1)
FirstOf(sq, P(_)) == LET ok == {j \in 1..Len(sq) : P(sq[j])} IN IF ok = {} THEN 0 ELSE sq[CHOOSE j \in ok : \A k \in ok : j <= k]
ChainAttr(D, g, name) ==
  LET x == FirstOf(Chain(D, g, 4), LAMBDA y : Has(D.n[y].a, name)) IN IF x = 0 THEN NoVal ELSE D.n[x].a[name]
\* (elements that SVG does not know are no content)
ContentKids(D, g, known) == SelectSeq(D.n[g].ch, LAMBDA c : D.n[c].t \in known)
ChainContent(D, g, known) ==
  LET x == FirstOf(Chain(D, g, 4), LAMBDA y : ContentKids(D, y, known) # <<>>) IN IF x = 0 THEN g ELSE x
PatAttr(D, g, name) == ChainAttr(D, g, name)
PatContent(D, g) == ChainContent(D, g, SwitchKids)

\* content painted with the pattern itself is an error and has no meaning
RECURSIVE Within(_, _, _)
Within(D, j, e) == j # 0 /\ (j = e \/ Within(D, D.n[j].p, e))
\* drawn whenever e is drawn
RECURSIVE Drawn(_, _, _)
Drawn(D, j, e) ==
  \/ j = e
  \/ j # 0 /\ D.n[j].t \notin NonRendered /\ D.envs[j]["display"].s # "none" /\ Drawn(D, D.n[j].p, e)
\* the same with a use element that leads to itself
UseInside(D, i) ==
  LET t == HrefTarget(D, i) IN
  IF t = 0 THEN {} ELSE {j \in 1..Len(D.n) : D.n[j].t = "use" /\ Drawn(D, j, t)}
RECURSIVE UseReach(_, _, _)
UseReach(D, front, seen) ==
  LET next == UNION {UseInside(D, j) : j \in front} \ seen IN IF next = {} THEN seen ELSE UseReach(D, next, seen \cup next)
CyclicUse(D, i) == UseInside(D, i) # {} /\ i \in UseReach(D, {i}, {})
SelfPainted(D, e) ==
  \E j \in (e + 1)..Len(D.n) : /\ D.n[j].t \in {"text", "tspan", "use"} \/ (D.n[j].t \in Shapes /\ Len(Geometry(D.n[j], Id6, TRUE)) > 1)
    /\ Within(D, j, e)
    /\ \E p \in {"fill", "stroke"} : D.envs[j][p].k = "url" /\ ById(D, D.envs[j][p].s) = e

\* anything else in a filter (descriptions, foreign elements, animations) is not part of the picture
FilterParts == {"feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix",
                "feDiffuseLighting", "feDisplacementMap", "feFlood", "feGaussianBlur", "feImage", "feMerge",
                "feMorphology", "feOffset", "feSpecularLighting", "feTile", "feTurbulence", "feDropShadow",
                "feFuncR", "feFuncG", "feFuncB", "feFuncA", "feMergeNode", "feDistantLight", "fePointLight",
                "feSpotLight"}

IdentityFilter(D, e) ==
  LET ch == ContentKids(D, ChainContent(D, e, FilterParts), FilterParts) IN
  Len(ch) = 1 /\ LET nd == D.n[ch[1]] IN
    nd.t = "feColorMatrix" /\ Attr(nd, "type").s \in {"matrix"} /\ (~Has(nd.a, "in") \/ nd.a["in"].s = "SourceGraphic") /\
    Attr(nd, "values").n = <<S, 0, 0, 0, 0, 0, S, 0, 0, 0, 0, 0, S, 0, 0, 0, 0, 0, S, 0>>

\* clip-path, mask, filter and pattern elements as seen from an element whose
\* user space is m.  f bounds self-reference.
EffectItem(D, e, m, env, f) ==
  IF f = 0 \/ e = 0 THEN Item(<<"deep">>, <<>>, <<>>, <<>>) ELSE
  LET nd == D.n[e]  own == D.envs[e]
      units(name, d) == IF Has(nd.a, name) THEN nd.a[name].s ELSE d
      len(name, d) == WithDflt(nd, name, d)
  IN CASE nd.t = "clipPath" ->
            LET u == units("clipPathUnits", "userSpaceOnUse")
                base == IF u = "userSpaceOnUse" THEN m ELSE Id6
                mm == MMul(base, TsOf(Own(D, e, "transform")))
                nested == LET c == own["clip-path"] IN
                          IF c.k = "url" /\ ById(D, c.s) # 0 THEN EffectItem(D, ById(D, c.s), mm, own, f - 1) ELSE NoneItem
                \* only shapes, text and use of them clip
                okk(c) == D.n[c].t \in Shapes \cup {"text"}
                          \/ (D.n[c].t = "use" /\ HrefTarget(D, c) # 0 /\ D.n[HrefTarget(D, c)].t \in Shapes \cup {"text"})
                cs == SelectSeq(nd.ch, LAMBDA c : okk(c))
                \* painting does not matter inside a clip path, only shape, clip-rule, visibility
                clipenv == [own EXCEPT !["fill"] = ColV("#000000"), !["stroke"] = Kw("none")]
                kid(c) == RenderNode(D, c, clipenv, mm, -(f - 1))
            IN Item(<<"clipPath", u>>, <<>>, IF u = "userSpaceOnUse" THEN <<>> ELSE m,
                    <<nested>> \o FlattenSeq([j \in 1..Len(cs) |-> kid(cs[j])]))
       [] nd.t = "mask" ->
            LET cu == units("maskContentUnits", "userSpaceOnUse")
                kids == RenderKids(D, e, own, IF cu = "userSpaceOnUse" THEN m ELSE Id6, f - 1)
                eff == LET c == own["mask"] IN IF c.k = "url" /\ ById(D, c.s) # 0 THEN EffectItem(D, ById(D, c.s), m, own, f - 1) ELSE NoneItem
                eff2 == LET c == own["clip-path"] IN IF c.k = "url" /\ ById(D, c.s) # 0 THEN EffectItem(D, ById(D, c.s), m, own, f - 1) ELSE NoneItem
            IN Item(<<"mask", units("maskUnits", "objectBoundingBox"), cu, own["color-interpolation"].s>>, <<>>, m,
                    <<eff, eff2, len("x", LenV(-10 * S, "%")), len("y", LenV(-10 * S, "%")),
                      len("width", LenV(120 * S, "%")), len("height", LenV(120 * S, "%"))>> \o kids)
       [] nd.t = "pattern" ->
            LET pu == LET v == PatAttr(D, e, "patternUnits") IN IF v.k = "no" THEN "objectBoundingBox" ELSE v.s
                pc == LET v == PatAttr(D, e, "patternContentUnits") IN IF v.k = "no" THEN "userSpaceOnUse" ELSE v.s
                plen(name) == LET v == PatAttr(D, e, name) IN RawVal(name, IF v.k = "num" THEN v ELSE NumV(0))
                raw(name) == LET v == PatAttr(D, e, name) IN IF v.k = "no" THEN NoneItem ELSE RawVal(name, v)
                src == PatContent(D, e)
                mm == MMul(m, TsOf(PatAttr(D, e, "patternTransform")))
            IN Item(<<"pattern", pu, pc>>, <<>>, mm,
                    <<plen("x"), plen("y"), plen("width"), plen("height"), raw("viewBox"), raw("preserveAspectRatio")>>
                    \o (IF SelfPainted(D, src) THEN << Item(<<"recursive">>, <<>>, <<>>, <<>>) >> ELSE RenderKids(D, src, D.envs[src], Id6, f - 1)))
       [] nd.t = "filter" ->
            LET ch == ContentKids(D, ChainContent(D, e, FilterParts), FilterParts)
                fv(name) == ChainAttr(D, e, name)
                fu(name, d) == LET v == fv(name) IN IF v.k = "no" THEN d ELSE v.s
                fl(name, d) == LET v == fv(name) IN RawVal(name, IF v.k = "no" THEN d ELSE v)
                attrs(x) == LET sel == SelectSeq(FilterAttrs, LAMBDA a : Has(D.n[x].a, a) /\ ~DropDflt(D.n[x].t, a, D.n[x].a[a]))
                            IN [j \in 1..Len(sel) |-> RawVal(sel[j], D.n[x].a[sel[j]])]
                props(x) == [j \in 1..Len(FilterProps) |-> RawVal(FilterProps[j],
                               IF FilterProps[j] = "flood-opacity" THEN NumV(Unit01(D.envs[x][FilterProps[j]])) ELSE D.envs[x][FilterProps[j]])]
                prim(x) == Item(<<D.n[x].t>>, <<>>, <<>>, attrs(x) \o props(x) \o
                     FlattenSeq([j \in 1..Len(D.n[x].ch) |->
                        LET c == D.n[x].ch[j] IN IF D.n[c].t \notin FilterParts THEN <<>> ELSE <<Item(<<D.n[c].t>>, <<>>, <<>>, attrs(c) \o props(c))>>]))
            IN IF IdentityFilter(D, e) THEN NoneItem
               ELSE Item(<<"filter", fu("filterUnits", "objectBoundingBox"), fu("primitiveUnits", "userSpaceOnUse")>>, <<>>, m,
                    <<fl("x", LenV(-10 * S, "%")), fl("y", LenV(-10 * S, "%")),
                      fl("width", LenV(120 * S, "%")), fl("height", LenV(120 * S, "%")), IF fv("filterRes").k # "no" THEN RawVal("filterRes", fv("filterRes")) ELSE NoneItem>>
                    \o [j \in 1..Len(ch) |-> prim(ch[j])])
       [] OTHER -> Item(<<"badeffect", nd.t>>, <<>>, <<>>, <<>>)

\* reference-valued property as an effect, NoneItem when absent or unresolved
EffectOf(D, env, prop, m, f) ==
  LET v == env[prop]
      e == IF v.k = "url" THEN ById(D, v.s) ELSE 0
  IN IF e = 0 THEN NoneItem ELSE EffectItem(D, e, m, env, f - 1)

MarkerItem(D, env, prop, m, f) ==
  LET v == env[prop]
      e == IF v.k = "url" THEN ById(D, v.s) ELSE 0
  IN IF e = 0 \/ f <= 1 THEN NoneItem
     ELSE IF D.n[e].t # "marker" THEN NoneItem
     ELSE LET nd == D.n[e]
              str(name, d) == IF Has(nd.a, name) THEN RawVal(name, nd.a[name]) ELSE RawVal(name, d)
              w == env["stroke-width"]
              k == IF str("markerUnits", Kw("strokeWidth")).s[3] = "userSpaceOnUse" \/ w.k # "num" THEN S ELSE ToUser(w.n[1], w.u[1])
          \* how large a marker is drawn, and in which orientation
          IN Item(<<"marker", prop>>, <<>>, [z \in 1..4 |-> Mul(m[z], k)],
              << str("markerUnits", Kw("strokeWidth")), WithDflt(nd, "refX", NumV(0)), WithDflt(nd, "refY", NumV(0)),
                 WithDflt(nd, "markerWidth", NumV(3 * S)), WithDflt(nd, "markerHeight", NumV(3 * S)),
                 str("orient", LenV(0, "")), str("viewBox", NoVal), str("preserveAspectRatio", NoVal),
                 RawVal("overflow", IF D.envs[e]["overflow"].k = "no" THEN Kw("hidden") ELSE D.envs[e]["overflow"]) >>
              \o RenderKids(D, e, D.envs[e], Id6, f - 2))

\* everything about a stroke, in document space
StrokeItem(D, env, m, f) ==
  LET p == PaintItem(D, env, "stroke", "stroke-opacity", m, f)
      w == env["stroke-width"]
      wn == IF w.k = "num" /\ Len(w.n) = 1 THEN ToUser(w.n[1], w.u[1]) ELSE S
      wu == IF w.k = "num" /\ Len(w.n) = 1 THEN RelUnit(w.u[1]) \o w.s ELSE ""
      g == Gram(m)
      sc == ScaleOf(m)
      da == env["stroke-dasharray"]
      dashed == da.k = "num" /\ (\E i \in 1..Len(da.n) : da.n[i] > 0) /\ (\A i \in 1..Len(da.n) : da.n[i] >= 0)
      do == env["stroke-dashoffset"]
      scl(v) == Item(<<"len", v.s>> \o [i \in 1..Len(v.u) |-> RelUnit(v.u[i])], <<>>, [i \in 1..Len(v.n) |-> Mul(ToUser(v.n[i], v.u[i]), sc)], <<>>)
      join == env["stroke-linejoin"].s
  IN IF p.s[1] = "none" \/ wn <= 0 THEN NoneItem
     ELSE Item(<<"stroke", wu, env["stroke-linecap"].s, join>>,
               IF join = "miter" THEN env["stroke-miterlimit"].n ELSE <<>>,
               [i \in 1..3 |-> Mul(g[i], Mul(wn, wn))],
               << p, IF dashed THEN scl(da) ELSE NoneItem,
                  IF dashed /\ do.k = "num" THEN scl(do) ELSE NoneItem >>)

\* wrap what an element paints in its own group effects
IsLayer(it) == it.s[1] = "layer"
\* a clip path or a mask without any content hides everything
RECURSIVE HidesAll(_)
HidesAll(e) == \/ e.s[1] = "clipPath" /\ (Len(e.k) = 1 \/ HidesAll(e.k[1]))
               \/ e.s[1] = "mask" /\ (Len(e.k) = 6 \/ HidesAll(e.k[1]) \/ HidesAll(e.k[2]))
Layer(items, op, clip, mask, flt) ==
  IF op = 0 \/ HidesAll(clip) \/ HidesAll(mask) THEN <<>>
  ELSE IF items = <<>> /\ flt = NoneItem THEN <<>>
  ELSE IF op = S /\ clip = NoneItem /\ mask = NoneItem /\ flt = NoneItem THEN items
  ELSE IF Len(items) = 1 /\ IsLayer(items[1]) THEN
    LET in == items[1] IN
    IF clip = NoneItem /\ mask = NoneItem /\ flt = NoneItem
    THEN << [in EXCEPT !.e = <<Mul(op, in.e[1])>>] >>
    ELSE IF in.k[1] = NoneItem /\ in.k[2] = NoneItem /\ in.k[3] = NoneItem /\ flt = NoneItem
    THEN << [in EXCEPT !.e = <<Mul(op, in.e[1])>>, !.k = <<clip, mask, flt>> \o SubSeq(@, 4, Len(@))] >>
    ELSE << Item(<<"layer">>, <<op>>, <<>>, <<clip, mask, flt>> \o items) >>
  ELSE << Item(<<"layer">>, <<op>>, <<>>, <<clip, mask, flt>> \o items) >>

\* Negative fuel marks the inside of a clip path, where only geometry counts.
RenderNode(D, i, penv, m0, f) ==
  LET nd == D.n[i]  clipping == f < 0 IN
  IF f = 0 \/ nd.t \in NonRendered THEN <<>>
  ELSE
  LET env0 == EnvOf(D, i, penv)
      env == ClipEnv(env0, f)
      m == MMul(m0, TsOf(Own(D, i, "transform")))
      \* only following a reference uses fuel
      ff == IF clipping THEN f + 1 ELSE f - 1
      af == Abs(f)
      hidden == env["visibility"].s \in {"hidden", "collapse"}
      marks == nd.t \in {"path", "line", "polyline", "polygon"} /\ ~clipping /\
               \E p \in {"marker-start", "marker-mid", "marker-end"} : env[p].k = "url" /\ ById(D, env[p].s) # 0 /\ ~Within(D, i, ById(D, env[p].s))
      shape ==
        LET g == Geometry(nd, m, marks)
            \* straight strokes enclose nothing
            flat == g # <<>> /\ g[1] = "path" /\ \A j \in 2..Len(g) : Len(g[j].k) <= 1 /\ \A l \in 1..Len(g[j].k) : g[j].k[l].s[1] = "L"
            fill == IF flat THEN NoneItem ELSE PaintItem(D, env, "fill", "fill-opacity", m, af)
            stroke == StrokeItem(D, env, m, af)
            fr == IF fill = NoneItem THEN "" ELSE env["fill-rule"].s
            \* (a marker does not draw itself)
            mark(p) == IF env[p].k = "url" /\ Within(D, i, ById(D, env[p].s)) THEN NoneItem ELSE MarkerItem(D, env, p, m, af)
            mk == IF marks THEN <<mark("marker-start"), mark("marker-mid"), mark("marker-end")>>
                  ELSE <<>>
            rel == IF \E a \in {"x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2"} :
                        FontRelative(Attr(nd, a)) THEN RawVal("font-size", env["font-size"]) ELSE NoneItem
        IN IF g = <<>> \/ hidden \/ (fill = NoneItem /\ stroke = NoneItem /\ mk = <<>>) \/ Len(g) = 1 THEN <<>>
           ELSE << Item(<<"shape", g[1], fr, env["shape-rendering"].s, env["color-interpolation"].s, env["color-rendering"].s>>,
                        <<>>, <<>>, <<fill, stroke, rel>> \o mk \o SubSeq(g, 2, Len(g))) >>
      body ==
        CASE nd.t = "g" -> RenderKids(D, i, env, m, f)
          [] nd.t = "a" ->
               LET k == RenderKids(D, i, env, m, f)
               IN IF k = <<>> THEN <<>> ELSE << Item(<<"a", HrefOf(nd).k, IF HrefOf(nd).k = "ref" THEN "" ELSE HrefOf(nd).s>>, <<>>, <<>>, k) >>
          [] nd.t = "switch" ->
               \* no conditions here: the first child is the one shown
               LET ch == SelectSeq(nd.ch, LAMBDA c : D.n[c].t \in SwitchKids)
               IN IF ch = <<>> THEN <<>> ELSE RenderNode(D, ch[1], env, m, f)
          [] nd.t = "svg" ->
               LET root == D.n[i].p = 0
                   ov == IF env["overflow"].k = "no" THEN "hidden" ELSE IF root /\ env["overflow"].s = "visible" THEN "hidden" ELSE env["overflow"].s
               IN << Item(<<"svg", IF root THEN "" ELSE ov>>, <<>>, m,
                     << IF root THEN NoneItem ELSE WithDflt(nd, "x", NumV(0)), IF root THEN NoneItem ELSE WithDflt(nd, "y", NumV(0)),
                        WithDflt(nd, "width", LenV(100 * S, "%")), WithDflt(nd, "height", LenV(100 * S, "%")),
                        RawVal("viewBox", Attr(nd, "viewBox")), RawVal("par", AttrOr(nd, "preserveAspectRatio", NoVal)) >>
                     \o RenderKids(D, i, env, IF root THEN m ELSE Id6, f)) >>
          [] nd.t = "use" ->
               LET t == HrefTarget(D, i)
                   x == NumOr(nd, "x", 0)  y == NumOr(nd, "y", 0)
                   plain == AllPlain(nd, <<"x", "y">>)
                   mm == IF plain THEN MMul(m, <<S, 0, 0, S, x, y>>) ELSE m
                   inner == IF t = 0 \/ CyclicUse(D, i) THEN <<>>
                            ELSE IF D.n[t].t = "symbol" THEN
                              LET e2 == EnvOf(D, t, env)
                                  k == RenderKids(D, t, e2, mm, ff)
                              IN IF k = <<>> THEN <<>> ELSE
                                 << Item(<<"symbol", IF e2["overflow"].k = "no" THEN "hidden" ELSE e2["overflow"].s>>, <<>>, IF Has(D.n[t].a, "viewBox") THEN mm ELSE <<>>,
                                    << WithDflt(nd, "width", LenV(100 * S, "%")), WithDflt(nd, "height", LenV(100 * S, "%")),
                                       RawVal("viewBox", Attr(D.n[t], "viewBox")), RawVal("par", Attr(D.n[t], "preserveAspectRatio")) >> \o k) >>
                            ELSE IF D.n[t].t = "svg" THEN
                              << Item(<<"usesvg">>, <<>>, mm, <<RawVal("width", Attr(nd, "width")), RawVal("height", Attr(nd, "height"))>>
                                      \o RenderNode(D, t, env, mm, ff)) >>
                            ELSE RenderNode(D, t, env, mm, ff)
               IN IF plain THEN inner
                  ELSE IF inner = <<>> THEN <<>> ELSE << Item(<<"use">>, <<>>, <<>>, <<WithDflt(nd, "x", NumV(0)), WithDflt(nd, "y", NumV(0))>> \o inner) >>
          [] nd.t = "image" ->
               IF hidden THEN <<>> ELSE
               << Item(<<"image", HrefOf(nd).s, env["image-rendering"].s, IF env["overflow"].k = "no" THEN "hidden" ELSE env["overflow"].s>>, <<>>, m,
                   << WithDflt(nd, "x", NumV(0)), WithDflt(nd, "y", NumV(0)), WithDflt(nd, "width", NumV(0)),
                      WithDflt(nd, "height", NumV(0)), RawVal("par", Attr(nd, "preserveAspectRatio")) >>) >>
          [] nd.t = "text" ->
               LET toks == TextTokens(D, i, penv, m, f, "default")
               IN IF toks = <<>> THEN <<>> ELSE << Item(<<"text">>, <<>>, m, toks) >>
          [] nd.t = "foreignObject" ->
               << Item(<<"foreignObject">>, <<>>, m,
                   << WithDflt(nd, "x", NumV(0)), WithDflt(nd, "y", NumV(0)), WithDflt(nd, "width", NumV(0)), WithDflt(nd, "height", NumV(0)) >>) >>
          [] nd.t \in Shapes -> shape
          [] OTHER -> <<>>
      \* what a use element paints lives in its translated user space
      em == IF nd.t = "use" /\ AllPlain(nd, <<"x", "y">>) THEN MMul(m, <<S, 0, 0, S, NumOr(nd, "x", 0), NumOr(nd, "y", 0)>>) ELSE m
      flt == env["filter"]
      \* a filter without primitives produces nothing
      blank == flt.k = "url" /\ LET e == ById(D, flt.s) IN
                 e # 0 /\ D.n[e].t = "filter" /\ \A j \in 1..Len(D.n[e].ch) : D.n[D.n[e].ch[j]].t \notin FilterParts
  IN IF blank \/ (env["display"].k = "kw" /\ env["display"].s = "none") THEN <<>>
     ELSE Layer(body, Opacity(env["opacity"]), EffectOf(D, env, "clip-path", em, af), EffectOf(D, env, "mask", em, af),
                \* without a bounding box there is nothing to filter
                IF body = <<>> /\ ~(nd.t = "g" \/ (nd.t = "use" /\ HrefTarget(D, i) # 0 /\ D.n[HrefTarget(D, i)].t = "g")) THEN NoneItem
                ELSE EffectOf(D, env, "filter", em, af))

-----------------------------------------------------------------------------
(* ---- text ---- *)

\* raw tokens of a text subtree in order: [o |-> "open"|"close"|"run", ...]
RECURSIVE RawTokens(_, _, _, _, _, _)
RawTokens(D, i, penv, m, f, sp) ==
  IF f = 0 THEN <<>> ELSE
  LET nd == D.n[i] IN
  IF nd.t = "#text" THEN
    << [o |-> "run", x |-> nd.x, sp |-> sp,
        it |-> Item(<<"run">>, <<>>, <<>>,
           [j \in 1..Len(TxtProps) |-> RawVal(TxtProps[j], penv[TxtProps[j]])]
           \o << PaintItem(D, penv, "fill", "fill-opacity", m, Abs(f)), StrokeItem(D, penv, m, Abs(f)) >>)] >>
  ELSE IF nd.t \notin {"text", "tspan", "tref", "textPath", "a", "altGlyph"} THEN <<>>
  ELSE
  LET env == ClipEnv(EnvOf(D, i, penv), f)
      sp2 == IF Has(nd.a, "xml:space") THEN nd.a["xml:space"].s ELSE sp
      owned == SelectSeq(TxtOwn, LAMBDA p : env[p] # Initial[p])
      pos == SelectSeq(TxtPos, LAMBDA p : Has(nd.a, p) /\ ~(nd.t = "text" /\ p \in {"x", "y"} /\ nd.a[p].n = <<0>>))
      op == IF nd.t # "text" /\ Opacity(env["opacity"]) # S THEN <<RawVal("opacity", NumV(Opacity(env["opacity"])))>> ELSE <<>>
      link == IF nd.t \in {"tref", "textPath", "a", "altGlyph"} THEN
                LET t == HrefTarget(D, i) IN
                << Item(<<nd.t, IF t = 0 THEN HrefOf(nd).s ELSE D.n[t].t>>, <<>>, <<>>,
                     IF t = 0 THEN <<>>
                     ELSE IF nd.t = "textPath" THEN PlacePath(Subpaths(Attr(D.n[t], "d")), TsOf(Attr(D.n[t], "transform")), FALSE)
                     ELSE IF nd.t = "tref" THEN <<Item(FlattenSeq([j \in 1..Len(D.n[t].ch) |-> D.n[D.n[t].ch[j]].x]), <<>>, <<>>, <<>>)>>
                     ELSE <<>>) >> ELSE <<>>
      rel == IF \E j \in 1..Len(pos) : FontRelative(nd.a[pos[j]]) THEN <<RawVal("font-size", env["font-size"])>> ELSE <<>>
      info == link \o op \o rel \o [j \in 1..Len(owned) |-> RawVal(owned[j], env[owned[j]])] \o RawAttrs(nd, pos)
      body == FlattenSeq([j \in 1..Len(nd.ch) |-> RawTokens(D, nd.ch[j], env, m, f, sp2)])
      \* a text path without a path shows nothing
      lost == nd.t = "textPath" /\ LET t == HrefTarget(D, i) IN t = 0 \/ \A s \in Range(Subpaths(Attr(D.n[t], "d"))) :
                                         \A j \in 1..Len(s.g) : s.g[j].c = "L" /\ s.g[j].a = <<s.x, s.y>>
  \* what is not displayed still takes part in the handling of white space
  IN IF lost \/ env["display"].s = "none" THEN
       LET runs == SelectSeq(body, LAMBDA t : t.o = "run") IN [j \in 1..Len(runs) |-> [runs[j] EXCEPT !.it = NoneItem]]
     ELSE IF info = <<>> THEN body
     ELSE << [o |-> "open", it |-> Item(<<"open">>, <<>>, <<>>, info)] >> \o body \o << [o |-> "close"] >>

\* white space (SVG 1.1, 10.15, with line breaks as spaces like SVG 2 has it) over the whole sequence of runs
RECURSIVE SpaceRun(_, _, _, _, _)
SpaceRun(x, i, sp, last, acc) ==    \* last: previous character was a (collapsible) space
  IF i > Len(x) THEN << acc, last >>
  ELSE LET c0 == x[i]
           c == IF c0 \in {"\n", "\t", "\r"} THEN " " ELSE c0
       IN IF c = " " /\ sp # "preserve" THEN
             (IF last THEN SpaceRun(x, i + 1, sp, TRUE, acc) ELSE SpaceRun(x, i + 1, sp, TRUE, Append(acc, " ")))
          ELSE SpaceRun(x, i + 1, sp, FALSE, Append(acc, c))
RECURSIVE SpaceAll(_, _, _, _)
SpaceAll(ts, i, last, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF ts[i].o # "run" THEN SpaceAll(ts, i + 1, last, Append(acc, ts[i]))
  ELSE LET r == SpaceRun(ts[i].x, 1, ts[i].sp, last, <<>>)
       IN SpaceAll(ts, i + 1, r[2], Append(acc, [ts[i] EXCEPT !.x = r[1]]))
\* the trailing collapsible space of the last non-empty run goes too
TrimEnd(ts) ==
  LET full == {i \in 1..Len(ts) : ts[i].o = "run" /\ ts[i].x # <<>>} IN
  IF full = {} THEN ts
  ELSE LET l == CHOOSE i \in full : \A j \in full : j <= i
           x == ts[l].x
       IN IF ts[l].sp # "preserve" /\ x[Len(x)] = " "
          THEN [ts EXCEPT ![l] = [ts[l] EXCEPT !.x = SubSeq(x, 1, Len(x) - 1)]] ELSE ts
\* empty runs and element pairs that enclose nothing are dropped; neighbouring
\* runs with the same style are one run
RECURSIVE Tidy(_, _, _)
Tidy(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE LET t == ts[i]  n == Len(acc) IN
    IF t.o = "run" /\ t.x = <<>> THEN Tidy(ts, i + 1, acc)
    ELSE IF t.o = "close" /\ n > 0 /\ acc[n].o = "open" THEN Tidy(ts, i + 1, SubSeq(acc, 1, n - 1))
    ELSE IF t.o = "run" /\ n > 0 /\ acc[n].o = "run" /\ acc[n].it = t.it THEN
      Tidy(ts, i + 1, [acc EXCEPT ![n] = [acc[n] EXCEPT !.x = @ \o t.x]])
    ELSE Tidy(ts, i + 1, Append(acc, t))

TextTokens(D, i, penv, m, f, sp) ==
  LET \* xml:space inherited from the ancestors
      RECURSIVE up(_)
      up(j) == IF j = 0 THEN "default" ELSE IF Has(D.n[j].a, "xml:space") THEN D.n[j].a["xml:space"].s ELSE up(D.n[j].p)
      raw == RawTokens(D, i, penv, m, f, up(i))
      spaced(t) == TrimEnd(SpaceAll(t, 1, TRUE, <<>>))
      seen == SelectSeq(spaced(raw), LAMBDA t : ~(t.o = "run" /\ t.it = NoneItem))
      ts == Tidy(spaced(seen), 1, <<>>)
      shown == \E j \in 1..Len(ts) : ts[j].o = "run"
      keep(t) == IF t.o = "run" THEN Item(<<"run">> \o t.x, <<>>, <<>>, t.it.k)
                 ELSE IF t.o = "open" THEN t.it ELSE Item(<<"close">>, <<>>, <<>>, <<>>)
  IN IF ~shown THEN <<>> ELSE [j \in 1..Len(ts) |-> keep(ts[j])]

-----------------------------------------------------------------------------
(* ---- the picture of a document, and when two pictures are the same ---- *)

\* SVG fonts: what a font says counts wherever text is shown
FontParts == {"font-face", "font-face-src", "font-face-uri", "font-face-name", "font-face-format", "glyph", "missing-glyph", "hkern", "vkern"}
FontAttrs == <<"horiz-adv-x", "horiz-origin-x", "horiz-origin-y", "vert-adv-y", "vert-origin-x", "vert-origin-y", "units-per-em",
  "ascent", "descent", "cap-height", "x-height", "accent-height", "stemv", "stemh", "alphabetic", "mathematical", "slope",
  "underline-position", "underline-thickness", "panose-1", "unicode-range", "widths", "bbox", "unicode", "glyph-name", "orientation",
  "arabic-form", "lang", "u1", "u2", "g1", "g2", "k", "name", "string", "xlink:href",
  "font-family", "font-style", "font-variant", "font-weight", "font-stretch", "font-size">>
FontDflt(t, a, v) == t = "font-face" /\ ((a \in {"font-variant", "font-stretch"} /\ v.s = "normal") \/ (v.k = "num" /\ <<a, v.n>> \in {<<"units-per-em", <<1000 * S>> >>, <<"slope", <<0>> >>}))
RECURSIVE FontItem(_, _)
FontItem(D, i) ==
  LET nd == D.n[i]
      sel == SelectSeq(FontAttrs, LAMBDA a : Has(nd.a, a) /\ ~FontDflt(nd.t, a, nd.a[a]))
      parts == SelectSeq(nd.ch, LAMBDA c : D.n[c].t \in FontParts)
      glyph == nd.t \in {"glyph", "missing-glyph"}
  IN Item(<<nd.t>>, <<>>, <<>>,
          [j \in 1..Len(sel) |-> RawVal(sel[j], nd.a[sel[j]])]
          \o (IF glyph THEN LET g == Geometry([nd EXCEPT !.t = "path"], Id6, FALSE) IN IF Len(g) < 2 THEN <<>> ELSE SubSeq(g, 2, Len(g)) ELSE <<>>)
          \o [j \in 1..Len(parts) |-> FontItem(D, parts[j])]
          \o (IF glyph THEN RenderKids(D, i, D.envs[i], Id6, FUEL) ELSE <<>>))
Fonts(D) == LET fs == {i \in 1..Len(D.n) : D.n[i].t \in {"font", "font-face"} /\ D.n[D.n[i].p].t # "font"}
                sq == SetToSortSeq(fs, <)
            IN [j \in 1..Len(sq) |-> FontItem(D, sq[j])]
RECURSIVE HasRun(_)
HasRun(sq) == \E j \in 1..Len(sq) : (sq[j].s # <<>> /\ sq[j].s[1] = "run") \/ HasRun(sq[j].k)

Render(D0) ==
  LET D == WithEnv(D0) IN
  IF D.n = <<>> THEN <<>>
  ELSE LET r == RenderNode(D, 1, RootEnv, Id6, FUEL)
           fs == Fonts(D)
       IN IF fs = <<>> \/ ~HasRun(r) THEN r ELSE r \o fs

\* tol: coarse tolerance for geometry (in 1/S units)
RECURSIVE ItemEq(_, _, _), ItemsEq(_, _, _)
ItemEq(a, b, tol) ==
  /\ a.s = b.s
  /\ CloseSeq(a.e, b.e, 3, 20000)
  /\ CloseSeq(a.n, b.n, tol, IF tol > 100 THEN 400 ELSE 4000)
  /\ ItemsEq(a.k, b.k, tol)
ItemsEq(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : ItemEq(x[i], y[i], tol)

\* where two pictures differ first (for reports)
RECURSIVE DiffItems(_, _, _)
DiffItems(x, y, tol) ==
  LET bad == {i \in 1..MinI(Len(x), Len(y)) : ~ItemEq(x[i], y[i], tol)} IN
  IF bad # {} THEN
    LET i == CHOOSE j \in bad : \A l \in bad : j <= l
        a == x[i]  b == y[i]
    IN IF a.s # b.s \/ ~CloseSeq(a.e, b.e, 3, 20000) \/ ~CloseSeq(a.n, b.n, tol, IF tol > 100 THEN 400 ELSE 4000)
       THEN [at |-> i, inn |-> [s |-> a.s, e |-> a.e, n |-> a.n], out |-> [s |-> b.s, e |-> b.e, n |-> b.n]]
       ELSE [at |-> i, of |-> a.s, sub |-> DiffItems(a.k, b.k, tol)]
  ELSE [len_in |-> Len(x), len_out |-> Len(y),
        extra |-> IF Len(x) > Len(y) THEN x[Len(y) + 1].s ELSE IF Len(y) > Len(x) THEN y[Len(x) + 1].s ELSE <<>>]
=============================================================================
