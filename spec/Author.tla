------------------------------- MODULE Author -------------------------------
(* An author who writes a document element by element.  Every state is a
   complete small document: TLC enumerates all documents of a family up to Size
   elements, and -simulate draws longer ones.  The driver writes each of them as
   SVG text and runs it through the real cleaner; module Cleaner judges the
   outcome.

   doc: elements in document order, [t: tag, p: parent (0: the root), a: attributes].
   An element is called "e<its number>"; it gets an id when something refers to it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Family == IOEnv.FAMILY
Size == atoi(IOEnv.SIZE)

VARIABLE doc

El(t, a) == [t |-> t, a |-> a]
None == <<>>                        \* no attributes
F(n, v) == n :> v                   \* one attribute
\* every way to take at most one value of an attribute
Opt(n, vs) == {None} \cup {F(n, v) : v \in vs}
Both(A, B) == {a @@ b : a \in A, b \in B}
Els(ts, A) == {El(t, a) : t \in ts, a \in A}
Nums == {ToString(i) : i \in 1..Size}
Refs(n, A) == {F(n, "#e" \o i) @@ a : i \in Nums, a \in A}
Urls(n) == {F(n, "url(#e" \o i \o ")") : i \in Nums}

-----------------------------------------------------------------------------
(* families: the elements an author may write next *)

Box == F("x", "3") @@ F("y", "4") @@ F("width", "20") @@ F("height", "10")
Paints == {None, F("fill", "red"), F("stroke", "blue"), F("opacity", "0.5"), F("fill", "red") @@ F("opacity", "0.5")}
Moves == {F("transform", "translate(5 6)"), F("transform", "scale(2 3)"), F("transform", "rotate(90)")}

\* groups and what can be moved between them and their children
Tree ==
  Els({"g"}, Paints \cup Moves \cup {F("stroke-width", "3"), F("fill", "none") @@ F("stroke", "red"), F("visibility", "hidden"),
                                    F("display", "none"), F("font-size", "20"), F("opacity", "0.5") @@ F("transform", "scale(2)")})
  \cup {El("rect", Box @@ a) : a \in Paints \cup Moves \cup {F("visibility", "visible"), F("stroke-width", "3") @@ F("stroke", "red"),
                                                             F("stroke-width", "1em") @@ F("stroke", "red")}}
  \cup {El("path", F("d", "M 1 2 L 30 5 Q 9 30 2 2") @@ a) : a \in {None, F("fill", "red"), F("stroke", "blue"), F("transform", "translate(5 6)")}}
  \cup Els({"a"}, {F("xlink:href", "http://e.org"), F("xlink:href", "http://e.org") @@ F("fill", "red")})
  \cup {El("switch", None)}

\* uses of everything that can be used ("with": an element written inside of it)
Filled(A) == A \cup {a @@ F("with", "rect") : a \in A}
Uses ==
  Els({"defs"}, Filled({None}))
  \cup Els({"g"}, Filled({None, F("fill", "red"), F("transform", "translate(5 6)"), F("opacity", "0.5"), F("visibility", "hidden"), F("display", "none")}))
  \cup Els({"use"}, Refs("xlink:href", {None, F("x", "7"), F("fill", "green"), F("transform", "scale(2)"), F("opacity", "0.5"),
                                        F("width", "9") @@ F("height", "8"), F("y", "3") @@ F("transform", "rotate(90)")}))
  \cup Els({"symbol", "svg"}, Filled({None, F("viewBox", "0 0 10 20"), F("fill", "red")}))
  \cup Els({"svg"}, Filled({F("x", "3") @@ F("width", "30") @@ F("height", "40")}))
  \cup {El("rect", Box @@ a) : a \in {None, F("fill", "blue"), F("stroke", "red"), F("transform", "translate(5 6)")}}
  \cup {El("text", F("fill", "blue"))}

\* gradients, their links, stops ("with": how many stops are written inside) and users
GA == {None, F("gradientUnits", "userSpaceOnUse"), F("spreadMethod", "reflect"), F("gradientTransform", "rotate(90)")}
Stopped(A) == A \cup {a @@ F("with", w) : a \in A, w \in {"stop", "stops"}}
Gradients ==
  Els({"linearGradient"}, Stopped(Both(GA, {None, F("x1", "0.2"), F("x2", "1"), F("x2", "0")})))
  \cup Els({"radialGradient"}, Stopped(Both(GA, {None, F("r", "0.4"), F("fx", "0.2"), F("cx", "0.5")})))
  \cup Els({"linearGradient"}, Refs("xlink:href", Stopped(GA \cup {F("x1", "0.2")})))
  \cup Els({"radialGradient"}, Refs("xlink:href", Stopped(GA \cup {F("r", "0.4")})))
  \cup (IF doc # <<>> /\ doc[1].t # "rect" THEN
          Els({"stop"}, Both({F("offset", "0"), F("offset", "0.5"), F("offset", "1")}, {F("stop-color", "red"), F("stop-color", "blue"), F("stop-opacity", "0.5")}))
        ELSE {})
  \cup {El("rect", Box @@ a) : a \in Urls("fill") \cup Urls("stroke")} \cup {El("rect", Box @@ F("fill-opacity", "0.5") @@ a) : a \in Urls("fill")}

\* paths; a segment is a child of its path
Segments ==
  LET S(c, ns) == El("seg", F("c", c) @@ F("n", ns)) IN
  {S(c, ns) : c \in {"M", "m", "L", "l", "T", "t"}, ns \in {"0 0", "5 0", "0 7", "3 4"}}
  \cup {S(c, ns) : c \in {"H", "h", "V", "v"}, ns \in {"0", "5", "12"}}
  \cup {S(c, ns) : c \in {"C", "c"}, ns \in {"1 2 3 4 5 6", "0 0 3 4 3 4", "5 0 8 0 12 0", "0 0 0 0 0 0", "2 2 4 4 3 4"}}
  \cup {S(c, ns) : c \in {"S", "s"}, ns \in {"3 4 5 6", "3 4 3 4", "0 0 0 0"}}
  \cup {S(c, ns) : c \in {"Q", "q"}, ns \in {"3 4 5 6", "0 0 3 4", "2 0 5 0"}}
  \cup {S(c, ns) : c \in {"A", "a"}, ns \in {"5 5 0 0 1 5 0", "3 4 30 1 0 3 4", "0 4 0 0 0 3 4"}}
  \cup {S(c, "") : c \in {"Z", "z"}}
Paths ==
  IF doc = <<>> THEN {El("path", a) : a \in {F("fill", "red"), F("stroke", "blue") @@ F("fill", "none"), F("marker-mid", "url(#mk)")}}
  ELSE IF Len(doc) = 1 THEN {El("seg", F("c", c) @@ F("n", "3 4")) : c \in {"M", "m"}}
  ELSE Segments

\* basic shapes: every combination of a few values of their attributes
Lines == {F("stroke", "black"), F("stroke", "black") @@ F("fill", "none") @@ F("stroke-width", "3"), F("fill", "red")}
Turns == {None, F("transform", "translate(5 6)"), F("transform", "scale(2)"), F("transform", "scale(2 3)"), F("transform", "rotate(90)"), F("transform", "scale(-1 1)")}
Shapes ==
  LET R == Both(Both(Opt("x", {"2"}), Both(Opt("width", {"0", "10", "50%", "-5"}), Opt("height", {"8", "1mm"}))),
                Both(Opt("rx", {"0", "3", "40", "-1", "10%"}), Opt("ry", {"0", "2", "30", "10%"})))
      C == Both(Opt("cx", {"4"}), Opt("r", {"0", "5", "-2", "10%"}))
      O == Both(Both(Opt("cx", {"4"}), Opt("cy", {"5%"})), Both(Opt("rx", {"0", "6", "-3"}), Opt("ry", {"7", "0", "5%"})))
      L == Both(Both(Opt("x1", {"3", "10%"}), Opt("y1", {"3"})), Both(Opt("x2", {"3", "9"}), Opt("y2", {"3", "1mm"})))
      P == Opt("points", {"", "1", "1 2", "1 2 3", "1 2 3 4", "1 2 3 4 5", "1,2 30,4 5,6", "1 2 30 4 5 16 1 2", "1 2 1 2 30 2"})
      T == Both(Turns, Lines)
  IN UNION {Els({"rect"}, Both(R, T)), Els({"circle"}, Both(C, T)), Els({"ellipse"}, Both(O, T)), Els({"line"}, Both(L, T)),
            Els({"polyline", "polygon"}, Both(P, T))}

\* one property along a chain of elements, declared in all the ways there are (s: style, c: style sheet)
Values ==
  "fill" :> {"red", "#000", "none"} @@ "stroke" :> {"red", "none"} @@ "stroke-width" :> {"1", "3", "0", "0.5em"} @@ "fill-opacity" :> {"1", "0.5"}
  @@ "stroke-linecap" :> {"butt", "round"} @@ "stroke-linejoin" :> {"bevel", "miter"} @@ "stroke-miterlimit" :> {"4", "2"}
  @@ "stroke-dasharray" :> {"none", "2 3", "2 3 4"} @@ "stroke-dashoffset" :> {"0", "4"} @@ "fill-rule" :> {"evenodd", "nonzero"}
  @@ "opacity" :> {"1", "0.5"} @@ "visibility" :> {"visible", "hidden"} @@ "display" :> {"none", "inline"} @@ "font-size" :> {"20", "2em", "50%"}
  @@ "color" :> {"green"} @@ "stop-color" :> {"red"} @@ "letter-spacing" :> {"2", "normal"} @@ "marker-start" :> {"url(#mk)", "none"}
  @@ "clip-path" :> {"none", "url(#cp)"} @@ "mask" :> {"none"} @@ "filter" :> {"none"} @@ "text-anchor" :> {"end", "start"} @@ "font-weight" :> {"bold", "normal"}
Ways == {"", "s:", "c:"}
Decl(p) == UNION {{F(w \o p, v) : v \in Values[p] \cup {"inherit"}} : w \in Ways}
Cascade ==
  IF doc = <<>> THEN {El("g", F("for", p)) : p \in DOMAIN Values}
  ELSE LET p == doc[1].a["for"]
           D == {None} \cup Decl(p) \cup (IF p \in {"fill", "stroke", "stop-color"} THEN {F(p, "currentColor")} ELSE {})
                \cup {F(p, CHOOSE u \in Values[p] : TRUE) @@ F(w \o p, v) : w \in {"s:", "c:"}, v \in Values[p]}
       IN Els({"g"}, D) \cup {El("path", F("d", "M 1 2 L 30 5 L 2 9") @@ F(IF p = "stroke" THEN "fill" ELSE "stroke", "blue") @@ a) : a \in D}
          \cup (IF p \in {"font-size", "letter-spacing", "text-anchor", "font-weight"} THEN Els({"text"}, D) ELSE {})

\* what defs hold, whether it is used, and what makes it draw nothing
Hidden ==
  Els({"defs", "g"}, Filled({None}))
  \cup Els({"clipPath"}, Filled({None, F("clipPathUnits", "objectBoundingBox"), F("clip-path", "url(#e1)"), F("transform", "scale(0)")}))
  \cup Els({"mask"}, Filled({None, F("width", "0"), F("maskContentUnits", "objectBoundingBox")}))
  \cup Els({"filter"}, {None}) \cup {El("feFlood", None), El("feGaussianBlur", F("stdDeviation", "0")), El("feGaussianBlur", F("stdDeviation", "2"))}
  \cup Els({"pattern"}, Filled({F("width", "5") @@ F("height", "5") @@ F("patternUnits", "userSpaceOnUse"), None}))
  \cup Els({"g"}, {F("display", "none"), F("opacity", "0"), F("visibility", "hidden"), F("transform", "scale(0)"), F("clip-path", "url(#e1)"),
                   F("filter", "url(#e1)"), F("mask", "url(#e1)")})
  \cup {El("rect", Box @@ a) : a \in {None, F("display", "none"), F("visibility", "visible"), F("fill", "none"), F("fill", "none") @@ F("stroke", "red"),
                                      F("opacity", "0"), F("clip-path", "url(#e2)"), F("mask", "url(#e2)"), F("filter", "url(#e2)"), F("fill", "url(#e1)"),
                                      F("fill", "url(#e2)"), F("width", "0"), F("stroke", "red") @@ F("stroke-width", "0") @@ F("fill", "none")}}
  \cup Els({"use"}, Refs("xlink:href", {None}))
  \cup {El("path", None), El("path", F("d", "M 1 2")), El("polygon", F("points", "1 2 3")), El("text", None)}

\* text: pieces of white space and words, in elements which may be positioned
Words == {"a", " ", "b ", " c", "d  e", "\n"}
Texts ==
  IF doc = <<>> THEN Els({"text"}, {None, F("xml:space", "preserve"), F("x", "5") @@ F("y", "9")})
  ELSE {El("#text", F("s", w)) : w \in Words}
       \cup Els({"tspan"}, {None, F("x", "3"), F("fill", "red"), F("dx", "1 2"), F("display", "none")})
       \cup Els({"text"}, {None, F("rotate", "5 10")}) \cup {El("a", F("xlink:href", "http://e.org"))}

\* patterns, filters, masks and markers: what they say, what they take from the one they link to
LastOf(ts) == LET ok == {j \in 1..Len(doc) : doc[j].t \in ts} IN "#e" \o ToString(CHOOSE j \in ok : \A k \in ok : k <= j)
PatternA == {F("x", "0"), F("y", "3"), F("patternUnits", "userSpaceOnUse"), F("patternUnits", "objectBoundingBox"),
             F("patternContentUnits", "userSpaceOnUse"), F("patternContentUnits", "objectBoundingBox"), F("patternTransform", "scale(2)"),
             F("width", "0"), F("viewBox", "0 0 9 9")}
FilterA == {F("x", "0"), F("x", "-10%"), F("width", "120%"), F("height", "9"), F("filterUnits", "userSpaceOnUse"), F("filterUnits", "objectBoundingBox"),
            F("primitiveUnits", "userSpaceOnUse"), F("primitiveUnits", "objectBoundingBox"), F("filterRes", "100")}
MaskA == {F("x", "0"), F("x", "-10%"), F("width", "120%"), F("height", "100%"), F("maskUnits", "userSpaceOnUse"), F("maskUnits", "objectBoundingBox"),
          F("maskContentUnits", "userSpaceOnUse"), F("maskContentUnits", "objectBoundingBox")}
MarkerA == {F("refX", "0"), F("refY", "3"), F("markerWidth", "3"), F("markerHeight", "9"), F("markerUnits", "strokeWidth"), F("markerUnits", "userSpaceOnUse"),
            F("orient", "0"), F("orient", "auto"), F("overflow", "visible"), F("overflow", "hidden"), F("viewBox", "0 0 9 9")}
SymbolA == {F("viewBox", "0 0 9 9"), F("overflow", "visible"), F("overflow", "hidden"), F("preserveAspectRatio", "none"), F("preserveAspectRatio", "xMidYMid meet")}
RegionA == {None, F("x", "0"), F("y", "0") @@ F("width", "5"), F("x", "0") @@ F("y", "0") @@ F("width", "100%") @@ F("height", "100%")}
Servers ==
  LET last == IF doc = <<>> THEN "" ELSE doc[Len(doc)].t
      Last == LastOf({"pattern", "filter", "mask", "marker", "symbol"})
      linked(t) == t \in {"pattern", "filter"} /\ \E i \in 1..Len(doc) : doc[i].t = t
      all(t, A) == Els({t}, IF linked(t) THEN {a @@ F("xlink:href", Last) : a \in A} \cup {a @@ F("xlink:href", Last) @@ F("with", "rect") : a \in IF t = "pattern" THEN A ELSE {}}
                            ELSE IF t = "filter" THEN A ELSE {a @@ F("with", "rect") : a \in A})
      box(a) == El("rect", Box @@ a)
  IN IF \E i \in 1..Len(doc) : doc[i].t \in {"rect", "path", "use"} THEN {}
     ELSE (IF last \in {"", "pattern"} THEN all("pattern", Both(PatternA \cup {None}, IF last = "" THEN {F("width", "5") @@ F("height", "6")} ELSE PatternA)) ELSE {})
     \cup (IF last = "" \/ doc[1].t = "filter" THEN all("filter", Both(FilterA \cup {None}, IF last = "" THEN FilterA \cup {None} ELSE {None, F("with", "flood"), F("with", "matrix")})) ELSE {})
     \cup (IF last = "" THEN Els({"filter"}, {a @@ F("with", w) : a \in FilterA \cup {None}, w \in {"flood", "matrix"}}) ELSE {})
     \cup (IF last = "" THEN all("mask", Both(MaskA, MaskA)) \cup all("marker", Both(MarkerA, MarkerA)) \cup all("symbol", Both(SymbolA, SymbolA)) ELSE {})
     \cup (IF last = "filter" THEN Els({"feFlood", "feOffset", "feTile"}, RegionA) \cup Els({"feGaussianBlur"}, {F("stdDeviation", "0"), F("stdDeviation", "2") @@ F("x", "0")}) ELSE {})
     \cup (IF last = "pattern" THEN {box(F("fill", "url(" \o Last \o ")")), box(F("stroke", "url(" \o Last \o ")"))} ELSE {})
     \cup (IF last # "" /\ doc[1].t = "filter" THEN {box(F("filter", "url(#e" \o ToString(i) \o ")")) : i \in {j \in 1..Len(doc) : doc[j].t = "filter"}} ELSE {})
     \cup (IF last = "mask" THEN {box(F("mask", "url(" \o Last \o ")"))} ELSE {})
     \cup (IF last = "marker" THEN {El("path", F("d", "M 1 2 L 3 4 L 5 6") @@ F("stroke", "red") @@ F(n, "url(" \o Last \o ")")) : n \in {"marker-start", "marker-mid"}} ELSE {})
     \cup (IF last = "symbol" THEN {El("use", a @@ F("xlink:href", Last)) : a \in {None, F("width", "9") @@ F("height", "100%"), F("overflow", "visible"), F("x", "0"), F("y", "3")}} ELSE {})

\* text whose white space is kept, by the element itself or by one it stands in
Spaces ==
  IF doc = <<>> THEN Els({"text", "g"}, {F("xml:space", "preserve")})
  ELSE {El("#text", F("s", w)) : w \in {"a", "b  c", " d", "e "}}
       \cup Els({"tspan"}, {None, F("x", "3")}) \cup Els({"text", "g"}, {None}) \cup {El("rect", Box)}

Choices == CASE Family = "tree" -> Tree
             [] Family = "uses" -> Uses
             [] Family = "gradients" -> Gradients
             [] Family = "paths" -> Paths
             [] Family = "shapes" -> Shapes
             [] Family = "cascade" -> Cascade
             [] Family = "hidden" -> Hidden
             [] Family = "texts" -> Texts
             [] Family = "spaces" -> Spaces
             [] Family = "servers" -> Servers

-----------------------------------------------------------------------------
(* where an element can be put, so that every document is written in one way *)

InText == Family \in {"texts", "spaces"}
Inner == {"stop", "tspan", "#text", "feFlood", "feGaussianBlur", "feOffset", "feTile", "seg"}
Holds(t, c) ==
  CASE t \in {"g", "a", "svg", "symbol", "switch"} -> c \notin Inner
    [] t \in {"defs", "mask", "pattern"} -> c \notin Inner \cup {"a", "switch"}
    [] t = "clipPath" -> c \in {"rect", "path", "polygon", "use", "text"}
    [] t = "filter" -> c \in {"feFlood", "feGaussianBlur", "feOffset", "feTile"}
    [] t \in {"linearGradient", "radialGradient"} -> c = "stop"
    [] t = "path" -> c = "seg"
    [] t \in {"text", "tspan"} -> InText /\ c \in {"tspan", "#text", "a"}
    [] OTHER -> FALSE
CanHold(i, c) ==
  IF i = 0 THEN c \notin Inner /\ (Family \in {"texts"} => c = "text")
  ELSE IF Family = "servers" /\ c \notin Inner THEN FALSE
  ELSE IF InText /\ doc[i].t = "a" THEN c \in {"tspan", "#text"} ELSE Holds(doc[i].t, c)

RECURSIVE Spine(_)
Spine(i) == IF i = 0 THEN {0} ELSE {i} \cup Spine(doc[i].p)
Places(c) == {i \in Spine(Len(doc)) : CanHold(i, c)}

Write == \E e \in Choices : \E i \in Places(e.t) : doc' = Append(doc, [t |-> e.t, p |-> i, a |-> e.a])
Init == doc = <<>>
Next == Len(doc) < Size /\ Write
Spec == Init /\ [][Next]_doc

-----------------------------------------------------------------------------
\* documents worth trying: what is written is there for something
Kids(i) == {j \in 1..Len(doc) : doc[j].p = i}
Empty(i) == Kids(i) = {} /\ "with" \notin DOMAIN doc[i].a
RefTo == [i \in 1..Size |-> {"#e" \o ToString(i), "url(#e" \o ToString(i) \o ")"}]
Referrers(i) == {j \in 1..Len(doc) : \E n \in DOMAIN doc[j].a : doc[j].a[n] \in RefTo[i]}
Linked == \A i \in 1..Size : Referrers(i) # {} => i <= Len(doc) /\ i \notin Referrers(i)
Server == "clip-path" :> "clipPath" @@ "mask" :> "mask" @@ "filter" :> "filter" @@ "fill" :> "pattern"
IsGradient(i) == doc[i].t \in {"linearGradient", "radialGradient"}
Interesting ==
  LET All(P(_)) == \A i \in 1..Len(doc) : P(i)
      Has(ts) == \E i \in 1..Len(doc) : doc[i].t \in ts
      NotEmpty(i) == doc[i].t \in {"g", "a", "switch", "defs", "symbol", "svg", "clipPath", "mask", "pattern"} => ~Empty(i)
  IN CASE Family = "tree" -> All(NotEmpty)
       [] Family = "uses" -> All(NotEmpty) /\ Has({"use"}) /\ Linked
       [] Family = "gradients" -> Has({"rect"}) /\ Linked /\ All(LAMBDA i : IsGradient(i) <=> Referrers(i) # {})
       [] Family = "paths" -> Len(doc) > 2
       [] Family = "cascade" -> Has({"path", "text"}) /\ All(LAMBDA i : doc[i].t # "g" \/ Kids(i) # {})
       [] Family = "hidden" -> /\ Has({"rect", "path", "polygon", "text", "use"}) /\ Linked
                               /\ \A i \in 1..Len(doc) : \A j \in Referrers(i) : \A n \in DOMAIN doc[j].a :
                                    (doc[j].a[n] \in RefTo[i] /\ n \in DOMAIN Server) => doc[i].t = Server[n]
       [] Family = "texts" -> All(LAMBDA i : doc[i].t = "text" /\ Kids(i) # {} => (Len(doc) > i /\ doc[i + 1].t = "#text" /\ doc[i + 1].a["s"] \in {"a", "b ", "d  e"}))
                              /\ Cardinality({i \in 1..Len(doc) : doc[i].t = "text"}) = 1
                              \* (finding: text-blank)
                              /\ All(LAMBDA i : doc[i].t = "#text" /\ doc[i].a["s"] \in {" ", "\n"} => doc[i].p = 1)
       [] Family = "servers" -> Has({"rect", "path", "use"}) /\ (doc[1].t = "filter" => Has({"feFlood", "feOffset", "feTile", "feGaussianBlur"}) \/ \E i \in 1..Len(doc) : "with" \in DOMAIN doc[i].a)
       [] Family = "spaces" -> /\ \E i \in 1..Len(doc) : doc[i].t = "text"
                               /\ All(LAMBDA i : (doc[i].t \in {"text", "tspan"} => Kids(i) # {}) /\ (doc[i].t = "g" => Kids(i) # {}))
       [] OTHER -> TRUE
Shown == doc = <<>> \/ ~Interesting \/ PrintT("DOC " \o ToJson(doc))
\* what every written document is: a tree in document order
WellFormed == \A i \in 1..Len(doc) : doc[i].p < i /\ (doc[i].p # 0 => CanHold(doc[i].p, doc[i].t))
=============================================================================
