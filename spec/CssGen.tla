------------------------------- MODULE CssGen --------------------------------
(* Random pages of styles and random histories.                                *)
EXTENDS Css, Json
CONSTANTS Steps, Styles, Items
VARIABLES styles, S, hist, ndone
vars == <<styles, S, hist, ndone>>
Pick(x) == RandomElement(x)
Chance(n) == RandomElement(1..100) <= n
F(z) == RandomElement(0..59 + 0 * z)
W(x) == [k |-> "w", x |-> x]
E(z) == [a |-> Pick(0..9 + 0 * z), v |-> Pick({1, 1, 2}), m |-> Pick({2, 3, 12, 101})]
N(z) == [k |-> "n", e |-> E(z), f |-> F(z)]
T(z) == [k |-> "t", e |-> E(z), f |-> F(z)]
U(z) == [k |-> "u", e |-> E(z), f |-> F(z)]
Contents == {"", ";", "a;b: c", "it ~B~", "x)", "/*", "*/ ;", "201C", "(", "\\201C", "a, b", "http://x/y?a=1&b=2;c#d", "@media", ": ;", "  two  ", "[x]"}
Q(z) == LET q == Pick({"\"", "'"}) IN [k |-> "s", q |-> q, x |-> IF Chance(12 + 0 * z) THEN "a\\" \o q \o ";b" ELSE IF Chance(10) THEN (IF q = "'" THEN "\";\"" ELSE "it's;") ELSE Pick(Contents)]
\* a comment in a value
C(z) == [k |-> "c", x |-> Pick({"it's; x", "a: b", "\"", ";", "url(", "~B~", ""})]
\* nstat: only the values without expressions
Val(z, stat) ==
    LET r == Pick(1..(IF stat THEN 19 ELSE 36) + 0 * z) IN
    CASE r = 1 -> <<W("red")>> [] r = 2 -> <<W("#a1b2c3")>> [] r = 3 -> <<W("#A1b2C380")>> [] r = 4 -> <<W("#fff")>>
      [] r = 5 -> <<W("10px 0 auto")>> [] r = 6 -> <<W("rgba(1, 2, 3, 0.5)")>> [] r = 7 -> <<W("calc(100% - 10px)")>>
      [] r = 8 -> <<Q(z)>> [] r = 9 -> <<Q(z), W(" attr(title) "), Q(z)>> [] r = 10 -> <<W("url("), Q(z), W(")")>>
      [] r = 11 -> <<W("url(data:image/png;base64,iVBO+/=)")>> [] r = 12 -> <<W("no-repeat url("), Q(z), W(") 50% / cover")>>
      [] r = 13 -> <<Q(z), W(", serif")>> [] r = 14 -> <<W("hsl(120, 100%, 50%)")>> [] r = 15 -> <<W("#a1b2c3 1px")>>
      [] r = 16 -> <<W("var(--main, #000)")>> [] r = 17 -> <<W("url(/a/b.png) center, linear-gradient(#123456, #abc)")>>
      [] r = 18 -> <<W("red "), C(z)>> [] r = 19 -> <<W("1px "), C(z), W(" solid "), C(z), W("red")>>
      [] r = 20 -> <<N(z)>> [] r = 21 -> <<N(z), W("px")>> [] r = 22 -> <<N(z), W("%")>> [] r = 23 -> <<W("1px solid "), T(z)>>
      [] r = 24 -> <<W("0 "), N(z), W("px "), N(z), W("em")>> [] r = 25 -> <<W("translate("), N(z), W("px, -"), N(z), W("%)")>>
      [] r = 26 -> <<U(z)>> [] r = 27 -> <<W("#a1b2c3 "), N(z), W("px")>> [] r = 28 -> <<T(z)>>
      [] r = 29 -> <<W("linear-gradient(to right, "), T(z), W(" 0%, #010203 "), N(z), W("%)")>>
      [] r = 30 -> <<U(z), W(" no-repeat")>> [] r = 31 -> <<U(z), W(", "), U(z)>> [] r = 32 -> <<T(z), W(" "), Q(z)>>
      [] r = 33 -> <<W("."), N(z), W("s")>> [] r = 34 -> <<N(z), W("px "), N(z), W("px "), N(z), W("px "), T(z)>>
      [] r = 35 -> <<Q(z), W(" "), N(z)>> [] r = 36 -> <<W("calc("), N(z), W("% + ("), N(z), W("px * 2))")>>
Props == {"color", "width", "margin-left", "content", "background", "transform", "-webkit-transform", "font-family", "animation-delay", "--main"}
Prop(z) == Pick({p \in Props : z >= 0})
Decl(z, stat) == [k |-> "d", p |-> IF Chance(50 + 0 * z) THEN Pick({"color", "width"}) ELSE Prop(z), v |-> TLCEval(Val(z, stat)), f |-> F(z)]
Block(z, stat, n) == TLCEval([i \in 1..Pick(1..n + 0 * z) |-> Decl(i, stat)])
OnM == {"hover", "focus", "nth", "hbefore", "fletter"}
On(z, form) == Pick({o \in (IF form = "text" THEN DOMAIN Pseudo ELSE OnM) : z >= 0})
OnBlock(z, form, stat) == [k |-> "on", on |-> On(z, form), b |-> Block(z, stat, 3), f |-> F(z)]
Notes == {"plain", "it's ; { x } : \"", "color: red;", "* / *", "@media print {", "~B~"}
Anim(z, stat) == [k |-> "an", pre |-> <<W(Pick({"5s linear 2s infinite alternate", "1.0s ease-in-out", ".5s"}))>>, f |-> F(z),
                  fr |-> IF Chance(15 + 0 * z) THEN <<>>
                         ELSE TLCEval([i \in 1..Pick(1..3) |-> [at |-> ToString((i - 1) * 50) \o "%", b |-> Block(i, stat, 2)]])]
IsDyn(s) == \E o \in {Occs(s)[i] : i \in DOMAIN Occs(s)} :
               (\E j \in DOMAIN o.v : o.v[j].k \in {"n", "t", "u"}) \/ \E j \in DOMAIN o.fr : \E d \in DOMAIN o.fr[j].b : \E x \in DOMAIN o.fr[j].b[d].v : o.fr[j].b[d].v[x].k \in {"n", "t", "u"}
Any1(z, form, stat, refs) ==
    LET r == Pick(1..100 + 0 * z) IN
    IF r <= 40 THEN Decl(z, stat)
    ELSE IF r <= 58 THEN OnBlock(z, form, stat)
    ELSE IF r <= 80 THEN [k |-> "at", q |-> Pick(DOMAIN Queries), f |-> F(z),
                          b |-> TLCEval([i \in 1..Pick(1..3) |-> IF Chance(65 + 0 * i) THEN Decl(i, stat) ELSE OnBlock(i, form, stat)])]
    ELSE IF r <= 88 THEN Anim(z, stat)
    ELSE IF form = "macro" /\ r <= 94 /\ refs # {} THEN [k |-> "ref", on |-> Pick({"", "hover", "focus"}), c |-> Pick(refs), b |-> Block(z, stat, 2), f |-> F(z)]
    ELSE IF form = "macro" THEN [k |-> "note", x |-> Pick(Notes), f |-> F(z)]
    ELSE Decl(z, stat)
\* an animation is one declaration, so one of them is enough
RECURSIVE OneAn(_, _)
OneAn(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s).k # "an" THEN <<Head(s)>> \o OneAn(Tail(s), seen) ELSE IF seen THEN OneAn(Tail(s), TRUE) ELSE <<Head(s)>> \o OneAn(Tail(s), TRUE)
Style(z, sofar) ==
    LET form == IF Chance(60 + 0 * z) THEN "macro" ELSE "text"
        stat == Chance(35 + 0 * z)
        refs == {i \in DOMAIN sofar : sofar[i].form = "macro" /\ ~IsDyn(sofar[i]) /\ Refs(sofar[i]) = {}} IN
    [form |-> form, f |-> F(z), it |-> OneAn(TLCEval([i \in 1..Pick(1..Items + 0 * z) |-> Any1(i, form, stat, refs)]), FALSE)]

Init == styles = <<>> /\ S = InitState /\ hist = <<>> /\ ndone = 0
Build == /\ Len(styles) < Styles /\ hist = <<>>
         /\ \E s \in {Style(Len(styles), styles)} : styles' = Append(styles, s)
         /\ UNCHANGED <<S, hist, ndone>>
RSt(z) == TLCEval({x \in States : Pick(0..1 + 0 * z) = 1})
RMs(z) == TLCEval({x \in DOMAIN Queries : Pick(0..1 + 0 * z) = 1})
RH(z) ==
    LET r == Pick(1..100 + 0 * z) IN
    IF r <= 35 THEN <<"tx", TLCEval([i \in 1..Pick(1..2) |-> <<Pick({1, 2}), Pick(0..4 + 0 * i)>>])>>
    ELSE IF r <= 65 THEN <<"st", RSt(z)>>
    ELSE <<"ms", RMs(z)>>
Step == /\ Len(styles) = Styles /\ ndone < Steps
        /\ \E h \in {IF hist = <<>> THEN <<"start">> ELSE RH(ndone)} : \E T1 \in {Apply(S, h)} :
              S' = T1 /\ hist' = Append(hist, Record(styles, h, T1))
        /\ ndone' = ndone + 1 /\ UNCHANGED styles
Finish == /\ ndone = Steps /\ PrintT("@@" \o ToJson([styles |-> styles, steps |-> hist]))
          /\ ndone' = Steps + 1 /\ UNCHANGED <<styles, S, hist>>
Next == Build \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(styles, S)
==============================================================================
