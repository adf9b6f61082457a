----------------------------- MODULE Contracts -----------------------------
(* What one run of the cleaner must guarantee about the document it returns.
   `inD` is the document it was given, `outD` the one it produced, ev.g the
   options given (name -> value string) and ev.nd whether --no-defaults was. *)
EXTENDS Svg, Options

On(ev, f) == FlagOn(ev.g, ev.nd, f)

NodesOf(D, P(_)) == {i \in 1..Len(D.n) : P(D.n[i])}
CountTag(D, t) == Cardinality({i \in 1..Len(D.n) : D.n[i].t = t})

-----------------------------------------------------------------------------
(* references and ids *)

\* all <<node, property, id>> a document refers to
UrlRefs(f) == {p \in DOMAIN f : f[p].k \in {"url", "ref"}}
RefTriples(D) ==
  UNION {{<<i, p, D.n[i].a[p].s>> : p \in UrlRefs(D.n[i].a)} \cup
         {<<i, p, D.n[i].y[p].s>> : p \in UrlRefs(D.n[i].y)} : i \in 1..Len(D.n)}
IdsOf(D) == [i \in {j \in 1..Len(D.n) : Has(D.n[j].a, "id")} |-> D.n[i].a["id"].s]
IdNodes(D) == {j \in 1..Len(D.n) : Has(D.n[j].a, "id")}
Ids(D) == {D.n[j].a["id"].s : j \in IdNodes(D)}

Dangling(D) == {r \in RefTriples(D) : r[3] \notin Ids(D)}
UniqueIds(D) == Cardinality(Ids(D)) = Cardinality(IdNodes(D))

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
ValidTrimmed(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) \in Letters
                   /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Letters \cup Digits

-----------------------------------------------------------------------------
(* refusal *)

AnimTags == {"animate", "animateColor", "animateMotion", "animateTransform", "set"}
EventAttrs == {"onabort", "onactivate", "onbegin", "onclick", "onend", "onerror", "onfocusin", "onfocusout", "onload",
  "onmousedown", "onmousemove", "onmouseout", "onmouseover", "onmouseup", "onrepeat", "onresize", "onscroll",
  "onunload", "onzoom"}
SvgTags == {"a","altGlyph","altGlyphDef","altGlyphItem","animate","animateColor","animateMotion","animateTransform",
  "circle","clipPath","color-profile","cursor","defs","desc","ellipse","feBlend","feColorMatrix","feComponentTransfer",
  "feComposite","feConvolveMatrix","feDiffuseLighting","feDisplacementMap","feDistantLight","feFlood","feFuncA",
  "feFuncB","feFuncG","feFuncR","feGaussianBlur","feImage","feMerge","feMergeNode","feMorphology","feOffset",
  "fePointLight","feSpecularLighting","feSpotLight","feTile","feTurbulence","filter","font","font-face",
  "font-face-format","font-face-name","font-face-src","font-face-uri","foreignObject","g","glyph","glyphRef","hkern",
  "image","line","linearGradient","marker","mask","metadata","missing-glyph","mpath","path","pattern","polygon",
  "polyline","radialGradient","rect","script","set","stop","style","svg","switch","symbol","text","textPath","title",
  "tref","tspan","use","view","vkern","#text"}
Conditions == {"requiredFeatures", "systemLanguage"}
ExternalOk == {"a", "image", "font-face-uri", "feImage"}
IsEmptyStr(v) == v.k = "str" /\ v.s = ""
OffendingNode(nd) ==
  \/ nd.t \in {"script"} \cup AnimTags
  \/ \E e \in EventAttrs : Has(nd.a, e)
  \/ \E c \in Conditions : Has(nd.a, c) /\ ~IsEmptyStr(nd.a[c])
  \/ Has(nd.a, "xlink:href") /\ nd.a["xlink:href"].k # "ref" /\ ~IsEmptyStr(nd.a["xlink:href"]) /\ nd.t \notin ExternalOk
Offending(D) == \E i \in 1..Len(D.n) : OffendingNode(D.n[i])

\* What the cleaner may refuse because it cannot be resolved: `inherit` (or
\* currentColor) with no declaration on any ancestor to take the value from, a
\* gradient stop with no offset, elements that link to themselves or each other.
RECURSIVE Ancestors(_, _)
Ancestors(D, i) == IF D.n[i].p = 0 THEN {} ELSE {D.n[i].p} \cup Ancestors(D, D.n[i].p)
\* (elements of other namespaces declare nothing)
Declares(D, i, p) == D.n[i].t \in SvgTags /\ Own(D, i, p).k # "no"
IsKw(v, s) == v.k = "kw" /\ v.s = s
UnresolvedInherit(D) ==
  \E i \in 1..Len(D.n) : D.n[i].t # "#text" /\
    \/ \E p \in Props : IsKw(Own(D, i, p), "inherit") /\ \A j \in Ancestors(D, i) : ~Declares(D, j, p)
    \/ \E p \in Props : IsKw(Own(D, i, p), "currentColor") /\ \A j \in {i} \cup Ancestors(D, i) : ~Declares(D, j, "color")
MissingOffset(D) == \E i \in 1..Len(D.n) : D.n[i].t = "stop" /\ Attr(D.n[i], "offset").k # "num"
CrossLinked(D) ==
  LET R == {<<r[1], ById(D, r[3])>> : r \in RefTriples(D)}
  IN \E r \in R : r[2] # 0 /\ (r[1] = r[2] \/ <<r[2], r[1]>> \in R)
\* a paint fallback next to a link that exists is not supported
UnresolvableFallback(D) ==
  \E i \in 1..Len(D.n) : \E f \in {D.n[i].a, D.n[i].y} : \E p \in DOMAIN f : f[p].k = "url" /\ f[p].u # <<>>
\* gradients whose links come back to where they started
GradLinks(D) ==
  LET G == {i \in 1..Len(D.n) : D.n[i].t \in {"linearGradient", "radialGradient"}}
  IN {e \in {<<r[1], ById(D, r[3])>> : r \in {x \in RefTriples(D) : x[1] \in G}} : e[2] \in G}
RECURSIVE Closure(_, _)
Closure(R, n) == IF n = 0 THEN R
                 ELSE Closure(R \cup {<<p[1][1], p[2][2]>> : p \in {x \in R \X R : x[1][2] = x[2][1]}}, n \div 2)
GradLoop(D) == LET L == GradLinks(D) IN L # {} /\ \E e \in Closure(L, Cardinality(L)) : e[1] = e[2]
Unresolvable(D) == UnresolvedInherit(D) \/ MissingOffset(D) \/ CrossLinked(D) \/ GradLoop(D) \/ UnresolvableFallback(D)

\* what must not be accepted
NothingToInherit(D) ==
  \E i \in 1..Len(D.n) : D.n[i].t # "#text" /\
    \E p \in Props : IsKw(Own(D, i, p), "inherit") /\ \A j \in Ancestors(D, i) : ~Declares(D, j, p)
MustRefuse(D) == Offending(D) \/ NothingToInherit(D) \/ CrossLinked(D) \/ GradLoop(D)

-----------------------------------------------------------------------------
(* completeness of removals *)

ForeignTag(t) == t \notin SvgTags
\* attribute names SVG does not define (the names the explored documents use)
ForeignAttr(a) == (Len(a) > 4 /\ SubSeq(a, 1, 4) = "ext:") \/ a \in {"foo", "zoo", "data-x"}

\* what an enabled option removes with everything inside of it
Dropped(ev, t) ==
  \/ ForeignTag(t) /\ On(ev, "remove-nonsvg-elements")
  \/ t = "title" /\ On(ev, "remove-title")
  \/ t = "desc" /\ On(ev, "remove-desc")
  \/ t = "metadata" /\ On(ev, "remove-metadata")
RECURSIVE Survives(_, _, _)
Survives(ev, D, i) == i = 0 \/ (~Dropped(ev, D.n[i].t) /\ Survives(ev, D, D.n[i].p))

CountForeignAttrs(D, NS) == Cardinality({p \in UNION {{<<j, b>> : b \in DOMAIN D.n[j].a} : j \in NS} : ForeignAttr(p[2])})
CountTags(D, NS, T(_)) == Cardinality({i \in NS : T(D.n[i].t)})
AllNodes(D) == {i \in 1..Len(D.n) : D.n[i].t # "#text"}

Referenceable == {"clipPath", "mask", "filter", "linearGradient", "radialGradient", "pattern", "marker", "symbol"}
RefIds(D) == {r[3] : r \in RefTriples(D)}
UnusedDef(D, i) == D.n[i].t \in Referenceable /\ ~(Has(D.n[i].a, "id") /\ D.n[i].a["id"].s \in RefIds(D))
UsesXlink(D) == \E i \in 1..Len(D.n) : \E a \in DOMAIN D.n[i].a : Len(a) > 6 /\ SubSeq(a, 1, 6) = "xlink:"

\* Options that only remove content of a class.  When no other is on, what a class
\* holds afterwards is known exactly: nothing, or all of what is not inside of
\* something else that is removed.
ContentOptions == {"remove-comments", "remove-declarations", "remove-nonsvg-elements", "remove-nonsvg-attributes", "remove-title",
  "remove-desc", "remove-metadata", "remove-version", "remove-unreferenced-ids", "trim-ids", "remove-xmlns-xlink-attribute"}
OnlyContent(ev) == ev.nd /\ DOMAIN ev.g \cap Flags \subseteq ContentOptions

\* names of the clauses a removal can break
Completeness(ev, I, O) ==
  LET exact == OnlyContent(ev)
      A == {i \in AllNodes(I) : Survives(ev, I, i)}
      B == AllNodes(O)
      \* of a class: none left when its option is on, else (when nothing else is removed) all that survive
      Class(opt, cin, cout) == IF On(ev, opt) THEN cout = 0 ELSE exact => cout = cin
      Tag(opt, T(_)) == Class(opt, CountTags(I, A, T), CountTags(O, B, T))
      root == I.n[1].a
      Root(opt, a) == IF On(ev, opt) THEN ~Has(O.n[1].a, a) ELSE Has(root, a) => Has(O.n[1].a, a)
      commentsIn == Cardinality({k \in 1..Len(I.misc.comments) : Survives(ev, I, I.misc.comments[k])})
      idsIn == {I.n[i].a["id"].s : i \in {j \in A : Has(I.n[j].a, "id") /\ ~ForeignTag(I.n[j].t)}}
  IN
  [ comments |-> Class("remove-comments", commentsIn, Len(O.misc.comments)),
    declarations |-> IF On(ev, "remove-declarations") THEN ~O.misc.decl ELSE O.misc.decl = I.misc.decl,
    nonsvg_elements |-> Tag("remove-nonsvg-elements", ForeignTag),
    \* (an empty `defs` is always removed)
    nonsvg_attributes |-> IF On(ev, "remove-nonsvg-attributes") THEN CountForeignAttrs(O, B) = 0
                          ELSE exact => CountForeignAttrs(I, {i \in A : I.n[i].t # "defs"}) = CountForeignAttrs(O, {i \in B : O.n[i].t # "defs"}),
    title |-> Tag("remove-title", LAMBDA t : t = "title"),
    desc |-> Tag("remove-desc", LAMBDA t : t = "desc"),
    metadata |-> Tag("remove-metadata", LAMBDA t : t = "metadata"),
    version |-> Root("remove-version", "version"),
    base_profile |-> Root("remove-version", "baseProfile"),
    ids |-> IF On(ev, "remove-unreferenced-ids") THEN Ids(O) \subseteq RefIds(O)
            ELSE exact => (IF On(ev, "trim-ids") THEN Cardinality(Ids(O)) = Cardinality(idsIn) ELSE Ids(O) = idsIn),
    defs |-> exact => CountTags(I, A, LAMBDA t : t \in Referenceable) = CountTags(O, B, LAMBDA t : t \in Referenceable),
    unused_defs |-> ev.nd /\ DOMAIN ev.g = {"remove-unused-defs"} /\ On(ev, "remove-unused-defs") => \A i \in 1..Len(O.n) : ~UnusedDef(O, i),
    xlink_ns |-> IF UsesXlink(O) THEN O.misc.xlink_ns
                 ELSE IF On(ev, "remove-xmlns-xlink-attribute") THEN ~O.misc.xlink_ns ELSE I.misc.xlink_ns => O.misc.xlink_ns ]
Broken(f) == {c \in DOMAIN f : ~f[c]}

-----------------------------------------------------------------------------
(* the same document in another notation *)

Significant(D, i) == SelectSeq(D.n[i].ch, LAMBDA c : D.n[c].t # "#text" \/ D.n[c].x # <<>>)
\* closing a subpath again does nothing
RECURSIVE Closes(_, _, _)
Closes(u, i, acc) ==
  IF i > Len(u) THEN acc
  ELSE Closes(u, i + 1, IF u[i] \in {"Z", "z"} /\ acc # <<>> /\ acc[Len(acc)] \in {"Z", "z"} THEN acc ELSE Append(acc, u[i]))
SameValue(v, w) ==
  \/ v = w
  \/ v.k = "path" /\ w.k = "path" /\ v.n = w.n /\ Closes(v.u, 1, <<>>) = Closes(w.u, 1, <<>>)
  \/ v.k = "ts" /\ w.k = "ts" /\ CloseSeq(TsOf(v), TsOf(w), 6, 2000)
SameAttrs(f, g) == DOMAIN f = DOMAIN g /\ \A a \in DOMAIN f : SameValue(f[a], g[a])
\* first place where two documents differ (<<>> when they do not)
RECURSIVE DiffTree(_, _, _, _)
RECURSIVE DiffKids(_, _, _, _, _)
DiffTree(A, i, B, j) ==
  LET x == A.n[i]  y == B.n[j] IN
  IF x.t # y.t THEN <<"tag", x.t, y.t>>
  ELSE IF ~SameAttrs(x.a, y.a) THEN
         IF DOMAIN x.a # DOMAIN y.a THEN <<"attributes", x.t>>
         ELSE LET d == CHOOSE k \in DOMAIN x.a : ~SameValue(x.a[k], y.a[k]) IN <<"attribute", x.t, d>>
  ELSE IF ~SameAttrs(x.y, y.y) THEN <<"style", x.t>>
  ELSE IF x.c # y.c THEN <<"class", x.t>>
  ELSE IF x.x # y.x THEN <<"text", x.p>>
  ELSE LET K == Significant(A, i)  L == Significant(B, j) IN
       IF Len(K) # Len(L) THEN <<"children", x.t>> ELSE DiffKids(A, K, B, L, 1)
DiffKids(A, K, B, L, n) ==
  IF n > Len(K) THEN <<>>
  ELSE LET d == DiffTree(A, K[n], B, L[n]) IN IF d # <<>> THEN d ELSE DiffKids(A, K, B, L, n + 1)
DiffDoc(A, B) ==
  IF Len(A.misc.comments) # Len(B.misc.comments) THEN <<"comments">>
  ELSE IF A.misc.decl # B.misc.decl THEN <<"declaration">>
  ELSE DiffTree(A, 1, B, 1)
=============================================================================
