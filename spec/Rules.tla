-------------------------------- MODULE Rules --------------------------------
(* The cleaner at design level: its tasks as guarded rewriting rules on documents.

   State: a document.  Every action is one small step of one task (the name of its
   option is in brackets); the guards are the conditions under which the
   task may act.  TLC explores all orders of all steps from the documents given
   (written by module Author) and checks what the tool promises: the picture
   never changes (Picture), references stay intact and ids unique (Links), every
   step makes the document smaller (Shrinks), so every run ends.

   Weakening a guard makes TLC show a document and the steps that break it.
   A record may hold what the real cleaner made of the document (`out`):
   Reached tells whether the model has a run with this result. *)
EXTENDS Contracts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, doc, pic
vars == <<rec, doc, pic>>
R == Trace[rec]
D == doc
N == 1..Len(doc.n)

-----------------------------------------------------------------------------
(* ---- editing documents ---- *)

Without(f, xs) == [x \in DOMAIN f \ xs |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
SetAttr(d, i, p, v) == [d EXCEPT !.n[i].a = With(@, p, v)]
DelAttrs(d, i, ps) == [d EXCEPT !.n[i].a = Without(@, ps)]

\* replace node i by the nodes ks in the children of its parent
RECURSIVE Splice(_, _, _, _)
Splice(ch, i, ks, j) ==
  IF j > Len(ch) THEN <<>> ELSE (IF ch[j] = i THEN ks ELSE <<ch[j]>>) \o Splice(ch, i, ks, j + 1)
Replace(d, i, ks) ==
  LET p == d.n[i].p IN
  [d EXCEPT !.n = [j \in 1..Len(d.n) |->
     IF j = p THEN [d.n[j] EXCEPT !.ch = Splice(@, i, ks, 1)]
     ELSE IF j \in Range(ks) THEN [d.n[j] EXCEPT !.p = p] ELSE d.n[j]]]
Cut(d, i) == Replace(d, i, <<>>)

\* nodes in document order, numbered from one; what hangs nowhere is gone
RECURSIVE Preorder(_, _)
Preorder(d, i) == <<i>> \o FlattenSeq([k \in 1..Len(d.n[i].ch) |-> Preorder(d, d.n[i].ch[k])])
Renumber(d) ==
  LET o == Preorder(d, 1)
      at == [i \in Range(o) |-> CHOOSE k \in 1..Len(o) : o[k] = i]
  IN [d EXCEPT !.n = [k \in 1..Len(o) |->
        LET nd == d.n[o[k]] IN
        [nd EXCEPT !.p = IF @ = 0 THEN 0 ELSE at[@], !.ch = [c \in 1..Len(@) |-> at[@[c]]]]]]

\* every reference to id s becomes one to id t
Rename(d, s, t) ==
  LET fix(f) == [p \in DOMAIN f |-> IF f[p].k \in {"url", "ref"} /\ f[p].s = s THEN [f[p] EXCEPT !.s = t] ELSE f[p]]
  IN [d EXCEPT !.n = [i \in 1..Len(d.n) |-> [d.n[i] EXCEPT !.a = fix(@), !.y = fix(@)]]]

-----------------------------------------------------------------------------
(* ---- what the guards speak of ---- *)

Tag(i) == D.n[i].t
A(i) == D.n[i].a
Kids(i) == D.n[i].ch
Id(i) == IF Has(A(i), "id") THEN A(i)["id"].s ELSE ""
Refs(i) == {r \in RefTriples(D) : Id(i) # "" /\ r[3] = Id(i)}
Referenced(i) == Refs(i) # {}
\* content of i is drawn elsewhere too, with other surroundings
Within2(i, e) == i = e \/ e \in Ancestors(D, i)
Shared(i) == \E e \in N : Within2(i, e) /\ \E r \in Refs(e) : Tag(r[1]) = "use"
Containers == {"g", "a", "switch", "svg", "symbol", "defs", "clipPath", "mask", "pattern", "marker"}
Below(i) == {j \in N : i \in Ancestors(D, j)}
Effects == {"opacity", "clip-path", "mask", "filter", "display", "overflow", "enable-background"}
Inh(i) == DOMAIN A(i) \cap Inherited
\* lengths that depend on the font of the place where they are written
FontLength(v) == v.k = "num" /\ \E j \in 1..Len(v.u) : v.u[j] \in {"em", "ex", "%"}
RelativeValue(v) == FontLength(v) \/ (v.k = "kw" /\ v.s \in RelativeKw)
UserSpace == {"clip-path", "mask", "filter"}   \* what a transform places
Mat(m) == [k |-> "ts", s |-> "", n |-> m, u |-> <<"matrix6">>]
TransformOf(i) == IF Has(A(i), "transform") THEN TsOf(A(i)["transform"]) ELSE Id6

-----------------------------------------------------------------------------
(* ---- the tasks ---- *)

Step(d) == doc' = TLCEval(Renumber(d)) /\ UNCHANGED <<rec, pic>>

\* [remove-default-attributes] a default value that overrides nothing
DropDefault ==
  \E i \in N : \E p \in DOMAIN A(i) \cap Props :
    /\ ~Has(D.n[i].y, p) /\ A(i)[p] = Initial[p]
    /\ p \in Inherited => ~Shared(i) /\ \A j \in Ancestors(D, i) : ~Declares(D, j, p)
    \* (what stands in a definition inherits from where it stands)
    /\ Step(DelAttrs(D, i, {p}))

\* [remove-needless-attributes] what the element has no use for
Needless == [p \in {"fill", "fill-rule", "fill-opacity"} |-> {"image", "stop", "filter", "feFlood", "linearGradient", "radialGradient"}]
            @@ [p \in {"stop-color", "stop-opacity"} |-> Shapes \cup {"text", "image"}]
DropNeedless ==
  \E i \in N : \E p \in DOMAIN A(i) \cap DOMAIN Needless :
    Tag(i) \in Needless[p] /\ Step(DelAttrs(D, i, {p}))
\* how a shape is filled or stroked when it is not
PaintKinds == "fill" :> {"fill-opacity", "fill-rule"} @@ "stroke" :> {"stroke-width", "stroke-opacity", "stroke-linecap", "stroke-linejoin",
                "stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset"}
DropUnpainted ==
  \E i \in N : \E k \in DOMAIN PaintKinds : \E p \in DOMAIN A(i) \cap PaintKinds[k] :
    /\ Tag(i) \in Shapes /\ ~Shared(i) /\ WithEnv(D).envs[i][k] = Kw("none")
    /\ k = "stroke" => \A q \in {"marker-start", "marker-mid", "marker-end"} : WithEnv(D).envs[i][q].k # "url"
    /\ Step(DelAttrs(D, i, {p}))
\* a stroke without width
DropStroke ==
  \E i \in N :
    /\ Tag(i) \in Shapes /\ Has(A(i), "stroke") /\ A(i)["stroke"] # Kw("none") /\ ~Has(D.n[i].y, "stroke")
    /\ LET e == WithEnv(D).envs[i] IN Plain(e["stroke-width"]) /\ e["stroke-width"].n[1] = 0
    /\ Step(SetAttr(D, i, "stroke", Kw("none")))

\* [ungroup-groups] a group without effects gives way to its children
CanTake(i, c) ==    \* child c of group i takes the attributes of i
  /\ Tag(c) # "#text"
  /\ Has(A(i), "transform") => /\ ~Referenced(c)
                               /\ Tag(c) \in Shapes \cup {"g", "use", "image", "text", "a", "switch"}   \* (a nested svg has no transform)
  /\ \A p \in Inh(i) : RelativeValue(A(i)[p]) \/ p = "font-size" => \A q \in DOMAIN A(c) : ~FontLength(A(c)[q]) \/ q \notin Props
  /\ \A p \in Inh(i) : ~(RelativeValue(A(i)[p]) /\ Has(A(c), p)) /\ ~(FontLength(A(i)[p]) /\ Has(A(c), "font-size"))
  /\ \A p \in Inh(i) : ~(Has(A(c), p) /\ RelativeValue(A(c)[p]))
Ungroup ==
  \E i \in N :
    /\ Tag(i) = "g" /\ ~Referenced(i) /\ (Tag(D.n[i].p) \in {"svg", "g", "a", "defs"} \/ (Tag(D.n[i].p) = "switch" /\ Len(Kids(i)) = 1))
    /\ DOMAIN D.n[i].y = {}
    /\ \A c \in Range(Kids(i)) : Tag(c) # "#text" /\ (DOMAIN A(i) \cap (Props \cup {"transform"}) # {} => ~Shared(c) \/ Shared(i))
    \* content of defs is not drawn there
    /\ Tag(D.n[i].p) # "defs" \/ DOMAIN A(i) \cap (Props \cup {"transform"}) = {}
    \* only an element that is alone can take the effects of the group
    /\ LET eff == DOMAIN A(i) \cap Effects IN
       eff # {} => /\ eff = {"opacity"} /\ Len(Kids(i)) = 1
                   /\ LET c == Kids(i)[1] IN Tag(c) \in Shapes \cup {"g", "use", "image", "text", "a"} /\ ~Referenced(c)
                                              /\ \A p \in UserSpace : ~Has(A(c), p)
    \* (else the document could grow)
    /\ DOMAIN A(i) \ {"id"} # {} => Len(Kids(i)) = 1
    /\ Kids(i) # <<>> /\ (DOMAIN A(i) \ {"id"} # {} => \A c \in Range(Kids(i)) : CanTake(i, c) /\ ~Referenced(c))
    /\ LET moved == DOMAIN A(i) \cap (Inherited \cup {"opacity", "transform"})
           take(c) ==
             [p \in DOMAIN A(c) \cup moved |->
                IF p = "transform" THEN Mat(MMul(TransformOf(i), TransformOf(c)))
                ELSE IF p = "opacity" /\ Has(A(i), p) /\ Has(A(c), p) THEN NumV(Mul(Unit01(A(i)[p]), Unit01(A(c)[p])))
                ELSE IF Has(A(c), p) THEN A(c)[p] ELSE A(i)[p]]
           d == [D EXCEPT !.n = [j \in N |-> IF j \in Range(Kids(i)) THEN [D.n[j] EXCEPT !.a = take(j)] ELSE D.n[j]]]
       IN Step(Replace(d, i, Kids(i)))

\* [group-by-style] what all children declare, their group declares for them
MoveUp ==
  \E i \in N : \E p \in Inherited \cup {"transform"} :
    /\ (Tag(i) = "g" \/ (Tag(i) = "svg" /\ p # "transform")) /\ Len(Kids(i)) > 1
    /\ p = "transform" => DOMAIN A(i) \cap (UserSpace \cup {"transform"}) = {} /\ \A c \in Range(Kids(i)) : ~Referenced(c) /\ ~Has(D.n[i].y, p)
    /\ Len(Kids(i)) > 1 /\ LET v == Attr(D.n[Kids(i)[1]], p) IN
       /\ v.k \notin {"no", "url"} /\ ~RelativeValue(v) /\ p # "font-size"
       /\ \A c \in Range(Kids(i)) : /\ Tag(c) \in Shapes \cup {"g", "text", "use"} /\ Attr(D.n[c], p) = v
                                    /\ ~Has(D.n[c].y, p) /\ ~Shared(c)
       /\ LET d == [D EXCEPT !.n = [j \in N |-> IF j \in Range(Kids(i)) THEN [D.n[j] EXCEPT !.a = Without(@, {p})] ELSE D.n[j]]]
          IN Step(SetAttr(d, i, p, v))

\* [group-by-style] neighbours with the same declaration come into a group
GroupRun ==
  \E i \in N : \E f \in 1..Len(Kids(i)) : \E l \in (f + 1)..Len(Kids(i)) : \E p \in Inherited \cup {"transform"} :
    LET run == SubSeq(Kids(i), f, l)  v == Attr(D.n[Kids(i)[f]], p) IN
    /\ Tag(i) \in {"svg", "g"} /\ (i = 1 \/ l - f + 1 < Len(Kids(i))) /\ v.k \notin {"no", "url"} /\ ~RelativeValue(v) /\ p # "font-size"
    /\ \A c \in Range(run) : /\ Tag(c) \in Shapes \cup {"g", "text", "use"} /\ Attr(D.n[c], p) = v /\ ~Has(D.n[c].y, p) /\ ~Shared(c)
    /\ LET g == Len(D.n) + 1
           d == [D EXCEPT !.n = [j \in N |-> IF j \in Range(run) THEN [D.n[j] EXCEPT !.a = Without(@, {p}), !.p = g]
                                             ELSE IF j = i THEN [D.n[j] EXCEPT !.ch = SubSeq(@, 1, f - 1) \o <<g>> \o SubSeq(@, l + 1, Len(@))]
                                             ELSE D.n[j]]
                                 \o << [t |-> "g", p |-> i, a |-> [q \in {p} |-> v], y |-> <<>>, c |-> <<>>, x |-> <<>>, ch |-> run] >>]
       IN Step(d)

\* definitions are collected at the start of the document (always)
ToDefs ==
  \E i \in N :
    /\ Tag(i) \in Gradients \cup {"clipPath", "mask", "pattern", "filter", "marker", "symbol"}
    /\ \A j \in Ancestors(D, i) : Tag(j) # "defs" /\ DOMAIN A(j) \cap Inherited = {} /\ DOMAIN D.n[j].y = {}
    /\ D.n[i].p = 1 \/ Tag(D.n[i].p) = "g"
    /\ LET first == Kids(1)[1]
           g == Len(D.n) + 1
           d == Cut(D, i)
       IN IF Tag(first) = "defs"
          THEN Step([d EXCEPT !.n[i].p = first, !.n[first].ch = Append(@, i)])
          ELSE Step([d EXCEPT !.n = Append([@ EXCEPT ![i].p = g, ![1].ch = <<g>> \o @],
                              [t |-> "defs", p |-> 1, a |-> <<>>, y |-> <<>>, c |-> <<>>, x |-> <<>>, ch |-> <<i>>])])

\* [remove-invalid-stops] a gradient of one colour is that colour, one without stops is nothing
FlatPaint ==
  \E i \in N : \E p \in {"fill", "stroke"} :
    LET v == Attr(D.n[i], p)
        e == WithEnv(D)
        g == IF v.k = "url" THEN ById(D, v.s) ELSE 0
    IN /\ g # 0 /\ Tag(g) \in Gradients /\ Tag(i) \in Shapes \cup {"text", "use", "g"}
       /\ LET it == GradientItem(e, g, Id6, S) IN
          \/ it = NoneItem /\ Step(SetAttr(D, i, p, Kw("none")))
          \/ it.s[1] = "color" /\ it.e = <<S>> /\ Step(SetAttr(D, i, p, ColV(it.s[2])))

\* [remove-unused-defs] what stands in defs is there to be referred to
DropFromDefs ==
  \E i \in N :
    /\ Tag(i) \in Shapes \cup {"g", "use", "text"} /\ Tag(D.n[i].p) = "defs" /\ ~Referenced(i) /\ \A j \in Below(i) : ~Referenced(j)
    /\ Step(Cut(D, i))
\* [remove-unused-defs] a definition nothing refers to
DropUnusedDef ==
  \E i \in N :
    /\ Tag(i) \in Referenceable /\ ~Referenced(i) /\ \A j \in Below(i) : ~Referenced(j)
    /\ Step(Cut(D, i))
\* an empty defs
DropEmptyDefs == \E i \in N : Tag(i) \in {"defs"} /\ Kids(i) = <<>> /\ ~Referenced(i) /\ Step(Cut(D, i))

\* [remove-invisible-elements] what paints nothing, and nothing else draws
DropInvisible ==
  \E i \in N :
    /\ ~Referenced(i) /\ \A j \in Below(i) : ~Referenced(j)
    /\ Tag(i) \in Shapes \cup {"g", "use", "text"}
    \* a switch shows its first child
    /\ Tag(D.n[i].p) # "switch"
    /\ \/ Own(D, i, "display") = Kw("none")
       \/ Own(D, i, "opacity").k = "num" /\ Unit01(Own(D, i, "opacity")) = 0
       \/ Tag(i) = "g" /\ Kids(i) = <<>> /\ ~Has(A(i), "filter")
       \/ Tag(i) \in Shapes /\ Geometry(D.n[i], Id6, TRUE) = <<>>
       \/ Tag(i) = "path" /\ Len(Subpaths(Attr(D.n[i], "d"))) = 0
       \/ Tag(i) \in Shapes /\ Own(D, i, "fill") = Kw("none") /\ Own(D, i, "stroke") = Kw("none")
          /\ \A q \in {"marker-start", "marker-mid", "marker-end"} : WithEnv(D).envs[i][q].k = "kw"
          \* a clip path needs its outline only
          /\ \A j \in Ancestors(D, i) : Tag(j) # "clipPath"
    /\ Step(Cut(D, i))

\* [resolve-use] the only use of a definition gives way to it
ResolveUse ==
  \E i \in N :
    LET t == HrefTarget(D, i) IN
    /\ Tag(i) = "use" /\ t # 0 /\ ~Referenced(i)
    /\ Tag(t) \in Shapes \cup {"g", "text"} /\ Tag(D.n[t].p) = "defs" /\ Cardinality(Refs(t)) = 1
    /\ t \notin Ancestors(D, i)
    /\ \A j \in Ancestors(D, D.n[t].p) \cup {D.n[t].p} : Tag(j) \in {"svg", "defs"}
    /\ AllPlain(D.n[i], <<"x", "y">>) /\ DOMAIN D.n[i].y = {}
    /\ DOMAIN A(i) \cap Effects = {} /\ \A p \in Inh(i) : ~RelativeValue(A(i)[p]) /\ p # "font-size"
    /\ LET m == MMul(TransformOf(i), <<S, 0, 0, S, NumOr(D.n[i], "x", 0), NumOr(D.n[i], "y", 0)>>)
           own == Without(A(t), {"id"})
           mine == [p \in (DOMAIN A(i) \cap Inherited) |-> A(i)[p]]
           tr == MMul(m, TransformOf(t))
           a0 == own @@ mine
           a == IF tr = Id6 THEN Without(a0, {"transform"}) ELSE With(a0, "transform", Mat(tr))
           d == Cut(D, t)
       IN /\ (tr # TransformOf(t)) => \A p \in {"fill", "stroke"} : Own(D, t, p).k # "url"
          /\ Step(Replace([d EXCEPT !.n[t].a = a], i, <<t>>))

\* [remove-dupl-lineargradient, remove-dupl-radialgradient] one of two equal ones
SameServer(i, j) ==
  /\ Tag(i) = Tag(j) /\ Tag(i) \in Gradients
  /\ Without(A(i), {"id"}) = Without(A(j), {"id"}) /\ D.n[i].y = D.n[j].y
  /\ Len(Kids(i)) = Len(Kids(j))
  /\ \A k \in 1..Len(Kids(i)) :
       LET x == D.n[Kids(i)[k]]  y == D.n[Kids(j)[k]] IN x.t = y.t /\ Without(x.a, {"id"}) = Without(y.a, {"id"}) /\ x.y = y.y /\ x.ch = <<>> /\ y.ch = <<>>
DropDuplicate ==
  \E i \in N : \E j \in N :
    /\ i < j /\ SameServer(i, j) /\ Id(i) # "" /\ Id(j) # "" /\ \A c \in Range(Kids(j)) : ~Referenced(c)
    /\ \A r \in Refs(j) : r[1] # i
    \* what the stops take from their surroundings
    /\ LET E == WithEnv(D).envs IN \A p \in {"color-interpolation"} : E[i][p] = E[j][p]
    /\ Step(Rename(Cut(D, j), Id(j), Id(i)))

\* [merge-gradients] a gradient takes the stops of the one it links to, when nothing else does
MergeGradient ==
  \E i \in N :
    LET t == HrefTarget(D, i) IN
    /\ Tag(i) \in Gradients /\ t # 0 /\ Tag(t) \in Gradients /\ StopsOf(D, i) = <<>> /\ Cardinality(Refs(t)) = 1
    /\ t \notin Ancestors(D, i) /\ i \notin Ancestors(D, t)
    /\ LET attrs == {"gradientUnits", "spreadMethod", "gradientTransform"} \cup (IF Tag(i) = Tag(t) THEN {"x1", "y1", "x2", "y2", "cx", "cy", "fx", "fy", "r"} ELSE {})
           got == [p \in (DOMAIN A(t) \cap attrs) |-> A(t)[p]]
           next == IF Has(A(t), "xlink:href") THEN [p \in {"xlink:href"} |-> A(t)["xlink:href"]] ELSE <<>>
           a == Without(A(i), {"xlink:href"}) @@ got @@ (IF Has(A(t), "xlink:href") THEN next ELSE <<>>)
           d0 == Cut(D, t)
           d == [d0 EXCEPT !.n = [j \in N |-> IF j \in Range(Kids(t)) THEN [d0.n[j] EXCEPT !.p = i] ELSE d0.n[j]]]
       IN /\ Inh(t) = {} /\ Inh(i) = {}
          /\ \A r \in RefTriples(D) : r[1] = t => ById(D, r[3]) # i
          /\ Step([d EXCEPT !.n[i].a = a, !.n[i].ch = Kids(t) \o Kids(i)])

\* [remove-invalid-stops] the same stop twice in a row
DropStop ==
  \E i \in N : Tag(i) \in Gradients /\ \E k \in 2..Len(StopsOf(D, i)) :
    LET s == StopsOf(D, i)  x == D.n[s[k - 1]]  y == D.n[s[k]] IN
    /\ Without(x.a, {"id"}) = Without(y.a, {"id"}) /\ x.y = y.y /\ ~Referenced(s[k]) /\ Step(Cut(D, s[k]))

\* [apply-transform-to-shapes] a basic shape takes its translation or uniform scale
Places == {"x", "y", "x1", "y1", "x2", "y2", "cx", "cy"}
Geo0 == Places \cup {"width", "height", "rx", "ry", "r"}
FoldShape ==
  \E i \in N :
    LET m == TransformOf(i)  nd == D.n[i]
        E == WithEnv(D).envs[i]
    IN
    /\ Tag(i) \in {"rect", "circle", "ellipse", "line"} /\ Has(A(i), "transform")
    /\ m[2] = 0 /\ m[3] = 0 /\ m[1] = m[4] /\ m[1] > 0
    \* what is relative to the viewport cannot be moved, and sizes are scaled as they are
    /\ \A p \in Geo0 : Attr(nd, p).k = "no" \/ Plain(Attr(nd, p)) \/ (m[1] = S /\ p \notin Places)
    /\ \A p \in {"fill", "stroke", "clip-path", "mask", "filter"} : E[p].k # "url"
    /\ ~Shared(i) /\ ~Referenced(i)
    \* strokes are scaled too
    /\ m[1] # S => (Plain(E["stroke-width"]) /\ E["stroke-dasharray"] = Kw("none") /\ ~Has(D.n[i].y, "stroke-width"))
    /\ LET len(p) == Attr(nd, p)
           at == CASE Tag(i) = "rect" -> {"x", "y"} [] Tag(i) = "line" -> {"x1", "y1", "x2", "y2"} [] OTHER -> {"cx", "cy"}
           to(p) == CASE p \in {"x", "x1", "x2", "cx"} -> NumV(AppX(m, NumOr(nd, p, 0), 0))
                      [] p \in {"y", "y1", "y2", "cy"} -> NumV(AppY(m, 0, NumOr(nd, p, 0)))
                      [] Plain(len(p)) -> LenV(Mul(m[1], len(p).n[1]), len(p).u[1])
                      [] OTHER -> len(p)
           a == [p \in (DOMAIN A(i) \ {"transform"}) \cup at |-> IF p \in Geo0 THEN to(p) ELSE A(i)[p]]
           b == IF m[1] = S THEN a
                ELSE With(a, "stroke-width", NumV(Mul(m[1], ToUser(E["stroke-width"].n[1], E["stroke-width"].u[1]))))
       IN Step([D EXCEPT !.n[i].a = b])

\* [convert-shapes] a rectangle with square corners, a line, a polygon becomes a path
PathV(u, n) == [k |-> "path", s |-> "", n |-> n, u |-> u]
ToPath ==
  \E i \in N :
    LET nd == D.n[i]  x(p) == NumOr(nd, p, 0)
        geo == {"x", "y", "width", "height", "rx", "ry", "x1", "y1", "x2", "y2", "points"}
        become(v) == [D EXCEPT !.n[i].t = "path", !.n[i].a = With(Without(@, geo), "d", v)]
    IN
    \/ /\ Tag(i) = "rect" /\ AllPlain(nd, <<"x", "y", "width", "height", "rx", "ry">>)
       /\ x("width") > 0 /\ x("height") > 0 /\ x("rx") = 0 /\ x("ry") = 0
       /\ LET e == WithEnv(D).envs[i] IN \A p \in {"marker-start", "marker-mid", "marker-end"} : e[p].k # "url"
       /\ Step(become(PathV(<<"M", "H", "V", "H", "Z">>,
                 <<x("x"), x("y"), Add(x("x"), x("width")), Add(x("y"), x("height")), x("x")>>)))
    \/ /\ Tag(i) = "line" /\ AllPlain(nd, <<"x1", "y1", "x2", "y2">>)
       /\ Step(become(PathV(<<"M", "L">>, <<x("x1"), x("y1"), x("x2"), x("y2")>>)))
    \/ /\ Tag(i) \in {"polyline", "polygon"} /\ Has(A(i), "points") /\ A(i)["points"].k = "num" /\ Len(A(i)["points"].n) >= 4
       /\ LET p == A(i)["points"].n  k == Len(p) \div 2
          IN Step(become(PathV(<<"M">> \o [j \in 1..(k - 1) |-> "L"] \o (IF Tag(i) = "polygon" THEN <<"Z">> ELSE <<>>), SubSeq(p, 1, 2 * k))))

\* [remove-unused-segments] a line that leads nowhere, where no markers stand
Offset(u, k) == LET RECURSIVE sum(_) sum(j) == IF j = 0 THEN 0 ELSE PathArity(u[j]) + sum(j - 1) IN sum(k - 1)
DropZeroLine ==
  \E i \in N :
    /\ Tag(i) = "path" /\ Attr(D.n[i], "d").k = "path"
    /\ LET e == WithEnv(D).envs[i] IN \A p \in {"marker-start", "marker-mid", "marker-end"} : e[p].k # "url"
    /\ LET v == A(i)["d"] IN \E k \in 2..Len(v.u) :
         /\ v.u[k] \in {"l", "h", "v"} /\ v.u[k - 1] \notin {"M", "m", "Z", "z"}
         /\ LET o == Offset(v.u, k)  ar == PathArity(v.u[k]) IN
            /\ \A z \in 1..ar : v.n[o + z] = 0
            \* what follows does not reflect the control point of what came before
            /\ k = Len(v.u) \/ Upper(v.u[k + 1]) \notin {"S", "T"}
            /\ Step(SetAttr(D, i, "d", PathV(SubSeq(v.u, 1, k - 1) \o SubSeq(v.u, k + 1, Len(v.u)),
                                             SubSeq(v.n, 1, o) \o SubSeq(v.n, o + ar + 1, Len(v.n)))))

\* [remove-unreferenced-ids]
DropId == \E i \in N : Has(A(i), "id") /\ ~Referenced(i) /\ Step(DelAttrs(D, i, {"id"}))

Rules == \/ DropDefault \/ DropNeedless \/ DropUnpainted \/ DropStroke \/ Ungroup \/ MoveUp \/ GroupRun \/ ToDefs \/ FlatPaint \/ DropFromDefs \/ DropUnusedDef \/ DropEmptyDefs \/ DropInvisible
         \/ ResolveUse \/ DropDuplicate \/ MergeGradient \/ DropStop \/ FoldShape \/ ToPath \/ DropZeroLine \/ DropId

Init == rec \in 1..Len(Trace) /\ doc = Renumber(R.d[1]) /\ pic = Render(R.d[1])
Next == Rules
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* ---- what is promised ---- *)

Picture == ItemsEq(pic, Render(doc), 30)
Links == Dangling(doc) \subseteq Dangling(R.d[1]) /\ UniqueIds(doc)

\* every step makes the document smaller in this sense: fewer elements, else fewer
\* attributes and path commands, else fewer transforms and shapes
Sum(f) == LET RECURSIVE s(_) s(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + s(X \ {x}) IN s(DOMAIN f)
Weight(d) ==
  LET Part(i) ==
        LET nd == d.n[i] IN
        20 + 24 * Cardinality(DOMAIN nd.a \ Places) + (IF Has(nd.a, "transform") THEN 24 ELSE 0)
        + (IF nd.t \in Shapes \ {"path"} THEN 90 ELSE 0) + Cardinality({p \in DOMAIN nd.a : nd.a[p].k = "url"}) + (IF Has(nd.a, "stroke") /\ nd.a["stroke"] # Kw("none") THEN 2 ELSE 0)
        + (IF nd.t \in Referenceable /\ \A j \in Ancestors(d, i) : d.n[j].t # "defs" THEN 40 ELSE 0)
        + (IF Has(nd.a, "d") /\ nd.a["d"].k = "path" THEN Len(nd.a["d"].u) ELSE 0)
  IN Sum([i \in 1..Len(d.n) |-> Part(i)])
Shrinks == [][Weight(doc') < Weight(doc)]_vars

\* is what the real cleaner wrote one of the reachable documents?
Reached == Len(R.d) > 1 /\ DiffTree(doc, 1, R.d[2], 1) = <<>> => PrintT("REACHED " \o ToString(R.id))
=============================================================================
