-------------------------------- MODULE Css ---------------------------------
(* What the styles written in css! and Css::str mean: which value every        *)
(* property has on the element, on its pseudo-elements and on elements of a    *)
(* class it refers to - for the values of the expressions, the states of the   *)
(* element (hover, ...) and the media queries which hold.                      *)
(*                                                                            *)
(* A style is [form, it]; an item of it is one of                              *)
(*   [k="d", p, v]       a declaration; v is a sequence of atoms               *)
(*   [k="on", on, b]     :hover { ... }, ::before { ... }                      *)
(*   [k="at", q, b]      @media q { declarations and pseudo blocks }           *)
(*   [k="ref", on, c, b] [style c] { ... }, :hover [style c] { ... }           *)
(*   [k="an", pre, fr]   animation: pre { 0% { ... } ... }                     *)
(*   [k="note", x]       a comment                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Colours == <<"red", "#a0b1c2", "rgb(1, 2, 3)", "Red">>
Queries == <<"print", "screen and (min-width: 600px)", "(30em <= width <= 50em), (orientation: landscape)">>
\* the pseudo selectors: the states they need and the thing they style
Pseudo == [hover |-> [st |-> {"hover"}, t |-> "self"], focus |-> [st |-> {"focus"}, t |-> "self"],
           nth |-> [st |-> {"nth-child(2n+1)"}, t |-> "self"], hbefore |-> [st |-> {"hover"}, t |-> "before"],
           fletter |-> [st |-> {"focus"}, t |-> "first-letter"], before |-> [st |-> {}, t |-> "before"],
           both |-> [st |-> {"hover", "focus"}, t |-> "self"]]
Targets == {"self", "before", "first-letter"}
States == {"hover", "focus", "nth-child(2n+1)"}

InitState == [v |-> <<0, 0>>, st |-> {}, ms |-> {}]

(* --- values -------------------------------------------------------------- *)
Num(e, v) == (e.a + v[e.v]) % e.m
Atom(a, v) ==
    CASE a.k = "w" -> a.x
      [] a.k = "c" -> ""
      [] a.k = "s" -> a.q \o a.x \o a.q
      [] a.k = "n" -> ToString(Num(a.e, v))
      [] a.k = "t" -> Colours[1 + (Num(a.e, v) % 4)]
      [] a.k = "u" -> "url('" \o ToString(Num(a.e, v)) \o ".png')"
RECURSIVE Text(_, _)
Text(as, v) == IF as = <<>> THEN "" ELSE Atom(Head(as), v) \o Text(Tail(as), v)

(* --- occurrences of declarations ----------------------------------------- *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
Occ(t, c, st, q, w, n, d) == [t |-> t, c |-> c, st |-> st, q |-> q, w |-> w, n |-> n, p |-> d.p, v |-> d.v, fr |-> <<>>]
\* a block of declarations after a pseudo selector
Under(o, q, b) == Map(LAMBDA d : Occ(Pseudo[o].t, 0, Pseudo[o].st, q, 1 + Cardinality(Pseudo[o].st), 1, d), b)
Item(i) ==
    CASE i.k = "d" -> <<Occ("self", 0, {}, {}, 1, 0, i)>>
      [] i.k = "on" -> Under(i.on, {}, i.b)
      [] i.k = "at" -> Flat(Map(LAMBDA x : IF x.k = "d" THEN <<Occ("self", 0, {}, {i.q}, 1, 1, x)>> ELSE Under(x.on, {i.q}, x.b), i.b))
      [] i.k = "ref" -> LET st == IF i.on = "" THEN {} ELSE Pseudo[i.on].st IN Map(LAMBDA d : Occ("kid", i.c, st, {}, 2 + Cardinality(st), 1, d), i.b)
      [] i.k = "an" -> <<[Occ("self", 0, {}, {}, 1, 0, [p |-> "animation", v |-> <<>>]) EXCEPT !.v = i.pre, !.fr = i.fr]>>
      [] OTHER -> <<>>
Occs(style) == Flat(Map(Item, style.it))

(* --- which of them is effective ------------------------------------------ *)
Beats(o, i, x, j) == o.w > x.w \/ (o.w = x.w /\ (o.n > x.n \/ (o.n = x.n /\ i > j)))
Matches(o, t, c, s) == o.t = t /\ o.c = c /\ o.st \subseteq s.st /\ o.q \subseteq s.ms
Frames(fr, v) == Map(LAMBDA f : [at |-> f.at, b |-> Map(LAMBDA d : [p |-> d.p, x |-> Text(d.v, v)], f.b)], fr)
Effective(os, t, c, s) ==
    LET hit == {i \in DOMAIN os : Matches(os[i], t, c, s)} IN
    {[p |-> os[i].p, x |-> Text(os[i].v, s.v), fr |-> Frames(os[i].fr, s.v)] :
        i \in {i \in hit : \A j \in hit \ {i} : os[j].p # os[i].p \/ Beats(os[i], i, os[j], j)}}
\* an element of the class c inside of the element: its own style, where the outer one says nothing
Kid(styles, k, c, s) ==
    LET outer == Effective(Occs(styles[k]), "kid", c, s)
        own == Effective(Occs(styles[c]), "self", 0, [s EXCEPT !.st = {}]) IN
    outer \cup {e \in own : \A o \in outer : o.p # e.p}
Refs(style) == {style.it[i].c : i \in {i \in DOMAIN style.it : style.it[i].k = "ref"}}
Show(styles, s) ==
    [k \in DOMAIN styles |->
        [ts |-> [t \in Targets |-> Effective(Occs(styles[k]), t, 0, s)],
         kids |-> {[c |-> c, e |-> Kid(styles, k, c, s)] : c \in Refs(styles[k])}]]

(* --- steps --------------------------------------------------------------- *)
RECURSIVE Sets(_, _)
Sets(v, ops) == IF ops = <<>> THEN v ELSE Sets([v EXCEPT ![Head(ops)[1]] = Head(ops)[2]], Tail(ops))
Apply(s, h) ==
    CASE h[1] = "tx" -> [s EXCEPT !.v = Sets(@, h[2])]
      [] h[1] = "st" -> [s EXCEPT !.st = h[2]]
      [] h[1] = "ms" -> [s EXCEPT !.ms = h[2]]
      [] OTHER -> s
Record(styles, h, s) == [h |-> h, v |-> s.v, st |-> s.st, ms |-> s.ms, show |-> Show(styles, s)]

(* --- what holds ---------------------------------------------------------- *)
\* one value of every property
OneValue(styles, s) == \A k \in DOMAIN styles : \A t \in Targets :
    LET E == Effective(Occs(styles[k]), t, 0, s) IN Cardinality({e.p : e \in E}) = Cardinality(E)
\* with no state and no query, the element has exactly its own declarations
Plain(styles, s) == \A k \in DOMAIN styles :
    LET os == Occs(styles[k])
        own == {i \in DOMAIN os : os[i].t = "self" /\ os[i].n = 0} IN
    {e.p : e \in Effective(os, "self", 0, [s EXCEPT !.st = {}, !.ms = {}])} = {os[i].p : i \in own}
\* a query which holds never changes what is not written for it; a state neither
Local(styles, s) == \A k \in DOMAIN styles : \A t \in Targets : \A q \in DOMAIN Queries :
    LET os == Occs(styles[k])
        with == Effective(os, t, 0, [s EXCEPT !.ms = @ \cup {q}])
        without == Effective(os, t, 0, [s EXCEPT !.ms = @ \ {q}])
        said == {os[i].p : i \in {i \in DOMAIN os : os[i].t = t /\ q \in os[i].q}} IN
    /\ {e \in with : e.p \notin said} = {e \in without : e.p \notin said}
    /\ {e.p : e \in without} \subseteq {e.p : e \in with}
\* what a block for a query says about a property wins over the element's own declaration
MediaWins(styles, s) == \A k \in DOMAIN styles :
    LET os == Occs(styles[k]) IN
    \A i \in DOMAIN os : (os[i].t = "self" /\ os[i].q # {} /\ os[i].q \subseteq s.ms /\ os[i].st \subseteq s.st)
        => \E e \in Effective(os, "self", 0, s) : e.p = os[i].p /\ \E j \in DOMAIN os : os[j].p = e.p /\ os[j].n = 1 /\ Text(os[j].v, s.v) = e.x
Good1(styles, s) == OneValue(styles, s) /\ Plain(styles, s) /\ Local(styles, s) /\ MediaWins(styles, s)
=============================================================================
