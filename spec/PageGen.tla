------------------------------ MODULE PageGen ------------------------------
(* Random component trees with random histories (tlc -simulate), each written *)
(* out with the document that must be shown after every step.                 *)
EXTENDS Page, Json, SequencesExt
CONSTANTS Steps, Levels, Profile   \* Profile: "page" | "list" | "event" | "css" | "sus"

\* All random definitions take an argument: TLC evaluates constant definitions without arguments once for all.
VARIABLES tree, S, hist, ndone, id
vars == <<tree, S, hist, ndone, id>>

Chance(p) == RandomElement(1..100) <= p
NV == 3
NL == 2
NS == 2
NO == 2
NCss == 10
Strs == {"~A~", "~B~", "p", " p", "~C~", "", "~D~", "q", "q "}
Pfx == {"a", "~B~", "", "n"}

RVars(n) == TLCEval([i \in 1..n |-> RandomElement(1..NV)])
RExprM(m, item) == [v |-> RVars(RandomElement({1, 1, 1, 2})), m |-> m, a |-> RandomElement(0..1), i |-> IF item /\ Chance(50) THEN 1 ELSE 0]
RExpr(item) == RExprM(RandomElement({2, 3}), item)
RExprK(item) == IF item /\ Chance(60) THEN [v |-> <<>>, m |-> 100, a |-> 0, i |-> 1] ELSE RExpr(item)

RAttrOf(name, item) ==
    LET k == RandomElement({"s", "c", "o", "v", "w", "o", "w"}) IN
    CASE k = "s" -> [n |-> name, k |-> "s", x |-> RandomElement(Strs \ {""})]
      [] k \in {"c", "o"} -> [n |-> name, k |-> k, x |-> RandomElement(Pfx), e |-> RExpr(item)]
      [] OTHER -> [n |-> name, k |-> k, j |-> RandomElement(1..2)]
Names == IF Profile = "css" THEN {"title", "class", "value"} ELSE {"title", "class", "value", "data-x", "id"}
RAttrs(tag, item) ==
    LET n == IF Profile = "css" THEN RandomElement(1..2) ELSE RandomElement({0, 0, 1, 2})
        n1 == IF tag \in {"input", "textarea"} /\ Chance(60) THEN "value" ELSE RandomElement(Names)
        n2 == RandomElement(Names \ {n1}) IN
    IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<RAttrOf(n1, item)>> ELSE <<RAttrOf(n1, item), RAttrOf(n2, item)>>

RGroup(z) == LET n == RandomElement({0, 1, 1, 2}) IN TLCEval([i \in 1..n |-> RandomElement(1..NCss) * RandomElement({-1, 1})])
RGroup1(z) == LET n == RandomElement({1, 1, 2}) IN TLCEval([i \in 1..n |-> RandomElement(1..NCss) * RandomElement({-1, 1})])
RCss(item) ==
    LET r == RandomElement(1..100)
        p == IF Profile = "css" THEN 70 ELSE 15 IN
    IF r > p THEN [k |-> "n"]
    ELSE IF Chance(40) THEN [k |-> "s", g |-> RGroup1(0)]
    ELSE LET m == RandomElement({2, 3}) IN [k |-> "c", e |-> RExprM(m, item), g |-> TLCEval([i \in 1..m |-> RGroup1(0)])]
RSus(z) == IF Chance(IF Profile = "sus" THEN 45 ELSE 8) THEN RandomElement({1, 2}) ELSE 0

\* a new list value: permutations and subsets of a few keys, seldom with a duplicate
RKeys(z) ==
    LET ks == RandomElement(SUBSET (0..4) \ (IF Chance(90) THEN {{}} ELSE {}))
        p == RandomElement(SetToSeqs(ks)) IN
    IF p # <<>> /\ Chance(12) THEN Append(p, RandomElement({p[i] : i \in DOMAIN p})) ELSE p

ROp(z) ==
    LET r == RandomElement(1..100)
        pl == IF Profile = "list" THEN 60 ELSE 20 IN
    IF r <= pl THEN [k |-> "l", j |-> RandomElement(1..NL), x |-> RKeys(0)]
    ELSE IF r <= 80 THEN [k |-> RandomElement({"v", "vc", "vs"}), j |-> RandomElement(1..NV), x |-> RandomElement(0..3)]
    ELSE IF r <= 90 THEN [k |-> "s", j |-> RandomElement(1..NS), x |-> RandomElement(Strs)]
    ELSE [k |-> "o", j |-> RandomElement(1..NO), x |-> RandomElement(Strs \cup {None})]
ROps(n) == TLCEval([i \in 1..n |-> ROp(0)])

EvTypes(tag) == {"click", "click", "mousedown", "mouseup", "mouseenter", "mouseleave", "blur", "load", "keydown", "hook", "drop"}
                \cup {"input", "change"}
RHandler(e, item) ==
    [e |-> e, h |-> RandomElement(1..99999), k |-> RandomElement({"s", "s", "c"}), x |-> RExpr(item),
     ops |-> IF e \in {"hook", "drop"} THEN <<>> ELSE ROps(RandomElement({0, 1, 1, 2})), r |-> Chance(50)]
REv(tag, item) ==
    LET n == IF Profile = "event" THEN RandomElement({0, 1, 2, 2}) ELSE IF Chance(8) THEN 1 ELSE 0
        Ty == IF tag \in {"input", "textarea", "select"} /\ Chance(70) THEN {"input", "change", "keydown"}
              ELSE IF Chance(60) THEN {"click", "keydown", "mousedown"} ELSE EvTypes(tag)
        e1 == RandomElement(Ty)
        e2 == IF Chance(12) THEN e1 ELSE RandomElement(EvTypes(tag) \ {e1}) IN
    IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<RHandler(e1, item)>> ELSE <<RHandler(e1, item), RHandler(e2, item)>>

El(tag, item, c) == [t |-> "el", tag |-> tag, at |-> RAttrs(tag, item), css |-> RCss(item), sus |-> RSus(0), ev |-> REv(tag, item), c |-> c]
Marker == [t |-> "el", tag |-> "vertigo-suspense", at |-> <<>>, css |-> [k |-> "n"], sus |-> 0, ev |-> <<>>, c |-> <<>>]

RECURSIVE Gen(_, _)
Kids(d, item) == LET n == RandomElement({0, 1, 2, 2, 3, 4}) IN TLCEval([i \in 1..n |-> Gen(d, item)])
Root(d, item) == LET n == RandomElement({2, 3, 4}) IN
    [t |-> "el", tag |-> "div", at |-> RAttrs("div", item), css |-> RCss(item), sus |-> RSus(0), ev |-> REv("div", item),
     c |-> TLCEval([i \in 1..n |-> Gen(d, item)])]

Leaf(item) ==
    LET r == RandomElement(1..100) IN
    IF r <= (IF Profile = "sus" THEN 45 ELSE 6) THEN Marker
    ELSE IF r <= 55 THEN [t |-> "text", x |-> RandomElement(Strs)]
    ELSE IF r <= 75 THEN [t |-> "ctext", x |-> RandomElement(Pfx), e |-> RExprK(item)]
    ELSE IF r <= 90 THEN [t |-> "etext", x |-> RandomElement(Pfx), e |-> RExprK(item)]
    ELSE [t |-> "stext", j |-> RandomElement(1..NS)]

Gen(d, item) ==
    LET r == RandomElement(1..100)
        wl == IF Profile = "list" THEN 30 ELSE 12    \* lists
        tag == RandomElement({"div", "span", "p", "ul", "li", "button", "svg"}) IN
    IF d = 0 THEN Leaf(item)
    ELSE IF r <= 32 THEN El(tag, item, Kids(d - 1, item))
    ELSE IF r <= 38 THEN El(RandomElement({"input", "textarea", "select"}), item, <<>>)
    ELSE IF r <= 38 + wl THEN
        LET n == RandomElement({1, 1, 2}) IN
        [t |-> "list", l |-> RandomElement(1..NL),
         b |-> TLCEval([i \in 1..n |-> IF Chance(70) THEN El("li", TRUE, Kids(d - 1, TRUE)) ELSE Gen(d - 1, TRUE)])]
    ELSE IF r <= 62 + wl THEN
        LET m == RandomElement({2, 3}) IN
        [t |-> "val", e |-> RExprM(m, item), b |-> TLCEval([i \in 1..m |-> IF Chance(20) THEN [t |-> "none"] ELSE Gen(d - 1, item)])]
    ELSE IF r <= 69 + wl THEN [t |-> "frag", c |-> Kids(d - 1, item)]
    ELSE Leaf(item)

REnv(z) == [v |-> TLCEval([i \in 1..NV |-> RandomElement(0..3)]), l |-> TLCEval([i \in 1..NL |-> RKeys(0)]),
         s |-> TLCEval([i \in 1..NS |-> RandomElement(Strs)]), o |-> TLCEval([i \in 1..NO |-> RandomElement(Strs \cup {None})])]

Init == tree = <<>> /\ S = <<>> /\ hist = <<>> /\ ndone = 0 /\ id = RandomElement(1..1000000000)

Build ==
    /\ tree = <<>>
    /\ \E t \in {TLCEval(Root(Levels + Len(hist), FALSE))} : \E e \in {TLCEval(REnv(0))} : \E s \in {Start(t, e)} :
          /\ tree' = t /\ S' = s
          /\ hist' = <<[op |-> <<"start">>, env |-> e, dom |-> Flatten(s.inst)]>>
    /\ UNCHANGED <<ndone, id>>

\* what the user can do to the page
REvent(T) ==
    LET els == Els(T.inst, <<>>, {}, FALSE)
        good == {x \in els : x.ty # {}}
        el == RandomElement(IF good # {} /\ Chance(90) THEN good ELSE els)
        ty0 == {x \in el.ty : Bubbles(x) \/ x \in el.own \/ x = "hook"}
        type0 == IF ty0 # {} /\ Chance(92) THEN RandomElement(ty0) ELSE RandomElement({"click", "keydown", "mousedown"})
        type == IF type0 = "hook" THEN "keydown"
                ELSE IF type0 = "input" /\ el.tag = "select" THEN "change"
                ELSE IF type0 \in {"input", "change"} /\ el.tag \notin {"input", "textarea", "select"} THEN "click" ELSE type0 IN
    [el |-> el, type |-> type, pl |-> IF type \in {"input", "change"} THEN RandomElement(Strs) ELSE RandomElement({"K1", "K2", "K3"})]

Ev ==
    /\ tree # <<>> /\ ndone < Steps
    /\ \E x \in {REvent(S)} : \E D \in {Dispatch(S, x.el, x.type, x.pl)} :
          /\ S' = D.S
          /\ hist' = Append(hist, [op |-> <<"ev", x.type, x.el.u, x.pl>>, log |-> D.S.log, prev |-> D.prev, dom |-> Flatten(D.S.inst)])
    /\ ndone' = ndone + 1 /\ UNCHANGED <<tree, id>>

Tx ==
    /\ tree # <<>> /\ ndone < Steps
    /\ \E o \in {IF Chance(50) THEN <<"op", ROp(0)>> ELSE <<"tx", ROps(RandomElement(1..4))>>} :
       \E T \in {Transact([S EXCEPT !.log = <<>>], IF o[1] = "op" THEN <<o[2]>> ELSE o[2])} :
          /\ S' = T
          /\ hist' = Append(hist, [op |-> o, dom |-> Flatten(T.inst)])
    /\ ndone' = ndone + 1 /\ UNCHANGED <<tree, id>>

Emit ==
    /\ tree # <<>> /\ ndone = Steps
    /\ PrintT("@@" \o ToJson([tree |-> tree, hist |-> hist]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<tree, S, hist, id>>

Next == \/ Build \/ Emit
        \/ \E c \in {Chance((IF Profile = "event" THEN 70 ELSE 15) + 0 * ndone)} : IF c THEN Ev ELSE Tx
Spec == Init /\ [][Next]_vars

Good == tree # <<>> => Denotes(tree, S) /\ Unique(S)
=============================================================================
