----------------------------- MODULE TemplateMC -----------------------------
(* Every notation of every construct: one construct between two texts, taken *)
(* through a change of everything it can depend on, and through its event.   *)
EXTENDS Page, Template, Json
VARIABLES src, S, hist, i

E(f) == [v |-> IF f % 2 = 0 THEN <<1>> ELSE <<1, 2>>, m |-> 3, a |-> (f % 3) % 2, i |-> 0]
E2(f) == [v |-> IF f % 2 = 0 THEN <<1>> ELSE <<1, 2>>, m |-> 2, a |-> (f % 3) % 2, i |-> 0]
No == [k |-> "n"]
ElA(tag, at, css, sus, ev, c, f) == [t |-> "el", tag |-> tag, at |-> at, css |-> css, sus |-> sus, ev |-> ev, c |-> c, f |-> f]
Plain(tag, c, f) == ElA(tag, <<>>, No, 0, <<>>, c, f)
Txt(x) == [t |-> "text", x |-> x, f |-> 0]
TxtF(x, f) == [t |-> "text", x |-> x, f |-> f]
Attr(k, n, f) ==
    CASE k = "s" -> [n |-> n, k |-> "s", x |-> "~A~", f |-> f]
      [] k \in {"c", "o"} -> [n |-> n, k |-> k, x |-> "q", e |-> E(f), f |-> f]
      [] OTHER -> [n |-> n, k |-> k, j |-> 1, f |-> f]
Ops == <<[k |-> "vc", j |-> 1, x |-> 2], [k |-> "s", j |-> 1, x |-> "~D~"]>>
Hd(e, k, f) == [e |-> e, h |-> 7, k |-> k, x |-> E(f), ops |-> IF e \in {"hook", "drop"} THEN <<>> ELSE Ops, r |-> f % 2 = 0, f |-> f]
Arg(k, x, f) == IF k = "s" THEN [k |-> "s", x |-> x, f |-> f] ELSE [k |-> "c", e |-> E(f), f |-> f]

Events == {"click", "mousedown", "mouseup", "mouseenter", "mouseleave", "blur", "load", "input", "change", "keydown", "hook", "drop"}
Constructs ==
    {TxtF(x, f) : x \in {"p", "", "~A~", "~D~"}, f \in 0..62}
    \cup {[t |-> "ctext", x |-> "n", e |-> E(f), f |-> f] : f \in 0..7}
    \cup {[t |-> "etext", x |-> x, e |-> E(f), f |-> f] : x \in {"", "n"}, f \in 0..11}
    \cup {[t |-> "stext", j |-> j, f |-> f] : j \in 1..2, f \in 0..3}
    \cup {Plain("p", <<Txt("z")>>, f) : f \in 0..13} \cup {Plain("p", <<>>, f) : f \in 0..13}
    \cup {[t |-> "frag", c |-> c, f |-> f] : f \in 0..5, c \in {<<>>, <<Txt("a"), Txt("b")>>, <<Plain("i", <<>>, 0), Plain("b", <<Txt("c")>>, 1)>>, <<Txt("a"), Plain("i", <<>>, 0)>>}}
    \cup {[t |-> "val", e |-> E2(f), b |-> b, f |-> f] : f \in 0..7, b \in {<<Txt("a"), Plain("i", <<>>, 0)>>, <<[t |-> "none", f |-> 0], Txt("b")>>}}
    \cup {[t |-> "list", l |-> 1, b |-> <<Plain("li", <<[t |-> "ctext", x |-> "", e |-> [v |-> <<>>, m |-> 100, a |-> 0, i |-> 1], f |-> f]>>, f)>>, f |-> f] : f \in 0..3}
    \cup {ElA("input", <<Attr(k, n, f)>>, No, 0, <<>>, <<>>, f) : k \in {"s", "c", "o", "v", "w"}, n \in {"title", "data-x", "value", "class"}, f \in 0..11}
    \cup {ElA("div", <<>>, [k |-> "s", g |-> g], 0, <<>>, <<>>, f) : g \in {<<1>>, <<-2, 3>>}, f \in 0..2}
    \cup {ElA("div", <<>>, [k |-> "c", e |-> E2(f), g |-> <<<<1>>, <<2>>>>], 0, <<>>, <<>>, f) : f \in 0..5}
    \cup {ElA("div", <<>>, No, s, <<>>, <<Plain("vertigo-suspense", <<>>, f)>>, f) : s \in 1..2, f \in 0..1}
    \cup {ElA("input", <<>>, No, 0, <<Hd(e, k, f)>>, <<>>, f) : e \in Events, k \in {"s", "c"}, f \in 0..14}
    \cup {[t |-> "comp", f |-> f, args |-> <<Arg("s", x, g), Arg("c", "", g)>>,
           body |-> ElA("section", <<[n |-> "title", k |-> "arg", j |-> 1, f |-> g]>>, No, 0, <<>>, <<[t |-> "carg", x |-> x, j |-> 2, f |-> g]>>, g)]
             : f \in 0..11, x \in {"", "p"}, g \in 0..5}
    \cup {[t |-> "comp", f |-> f, args |-> <<Arg("s", x, g)>>, body |-> Plain("section", <<[t |-> "arg", j |-> 1, f |-> f]>>, f)] : f \in 0..11, x \in {"", "~B~"}, g \in 0..5}
    \cup {[t |-> "comp", f |-> f, args |-> <<>>, body |-> Plain("section", <<Plain("i", <<>>, f)>>, f)] : f \in 0..13}

Root(c) == Plain("div", <<TxtF("<", 9), c, TxtF(">", 9)>>, 1)
Env(k) == [v |-> <<k, 1, 0>>, l |-> <<IF k = 0 THEN <<1, 2>> ELSE <<2, 3, 1>>, <<>>>>, s |-> <<IF k = 0 THEN "~B~" ELSE "w", "r">>, o |-> <<IF k = 0 THEN None ELSE "y", None>>]
Change == <<[k |-> "v", j |-> 1, x |-> 1], [k |-> "l", j |-> 1, x |-> Env(1).l[1]], [k |-> "s", j |-> 1, x |-> "w"], [k |-> "o", j |-> 1, x |-> "y"]>>

Init == \E c \in Constructs : /\ src = Root(c) /\ i = 0
                              /\ S = Start(Mean(Root(c), <<>>), Env(0))
                              /\ hist = <<[op |-> <<"start">>, env |-> Env(0), dom |-> Flatten(S.inst)]>>
Tx == i = 0 /\ i' = 1 /\ UNCHANGED src
      /\ \E T \in {Transact(S, Change)} : S' = T /\ hist' = Append(hist, [op |-> <<"tx", Change>>, dom |-> Flatten(T.inst)])
EvOf(c) == IF c.t = "el" /\ c.ev # <<>> THEN c.ev[1].e ELSE ""
Fire == /\ i = 1 /\ i' = 2 /\ UNCHANGED src
        /\ LET e == EvOf(src.c[2])
               ty == IF e = "hook" THEN "keydown" ELSE e
               pl == IF e \in {"input", "change"} THEN "~C~" ELSE "K2" IN
           IF e = "" THEN UNCHANGED <<S, hist>>
           ELSE \E el \in {x \in Els(S.inst, <<>>, {}, FALSE) : x.tag = "input"} : \E D \in {Dispatch(S, el, ty, pl)} :
                   S' = D.S /\ hist' = Append(hist, [op |-> <<"ev", ty, el.u, pl>>, log |-> D.S.log, prev |-> D.prev, dom |-> Flatten(D.S.inst)])
Emit == i = 2 /\ i' = 3 /\ PrintT("@@" \o ToJson([tree |-> Mean(src, <<>>), src |-> src, hist |-> hist])) /\ UNCHANGED <<src, S, hist>>
Next == Tx \/ Fire \/ Emit
Spec == Init /\ [][Next]_<<src, S, hist, i>>
View == <<src, i>>
Good == Denotes(Mean(src, <<>>), S) /\ Unique(S)
=============================================================================
