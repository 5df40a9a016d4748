----------------------------- MODULE SsrPageGen ------------------------------
(* Random documents for the server: an html element with a head and a body,   *)
(* the transactions which follow before the page is sent, and the document    *)
(* which has to be in the answer (the one the last transaction leads to).     *)
EXTENDS PageGen

Plain(tag, at, c) == [t |-> "el", tag |-> tag, at |-> at, css |-> [k |-> "n"], sus |-> 0, ev |-> <<>>, c |-> c]
RawTexts == {"~A~", "~B~", "~D~", "</STYLE >x", "<!-- <script> --", "<!--<SCRIPT x", "a</scriptb</script", "{\"a\": \"</style\"}", "a && b < c", ""}
\* what is random depends on an argument which is no constant (TLC evaluates constant expressions once for all)
RText(n) ==
    LET r == RandomElement(1..3 + 0 * n) IN
    IF r = 1 THEN [t |-> "text", x |-> RandomElement(Strs \cup RawTexts)]
    ELSE IF r = 2 THEN [t |-> "ctext", x |-> RandomElement(RawTexts), e |-> RExpr(FALSE)]
    ELSE [t |-> "stext", j |-> RandomElement(1..NS)]
RTexts(n) == TLCEval([i \in 1..n |-> RText(n + i)])
Tag(x, n) == IF n > 100000 THEN "" ELSE x
\* elements whose content has rules of its own
Special(n) ==
    LET r == RandomElement(1..10 + 0 * n) IN
    CASE r = 1 -> Plain("script", <<[n |-> "type", k |-> "s", x |-> "application/json"]>>, RTexts(RandomElement(1..2 + 0 * n)))
      [] r = 2 -> Plain("style", RAttrs(Tag("style", n), FALSE), RTexts(RandomElement(1..2 + 0 * n)))
      [] r = 3 -> Plain("title", <<>>, RTexts(RandomElement(0..2 + 0 * n)))
      [] r = 4 -> Plain("textarea", RAttrs(Tag("textarea", n), FALSE), <<[t |-> "text", x |-> RandomElement({"~A~", "</textarea>", Tag("x", n)})]>>)
      [] r = 5 -> Plain("pre", RAttrs(Tag("pre", n), FALSE), <<[t |-> "text", x |-> RandomElement({"~A~", "~C~", "~D~", Tag("x", n)})]>>)
      [] r = 6 -> El(RandomElement({"br", "hr", "img", "input", Tag("wbr", n)}), FALSE, <<>>)
      [] r = 7 -> Plain("meta", <<[n |-> "name", k |-> "s", x |-> "~A~"], [n |-> "content", k |-> "o", x |-> Tag("~B~", n), e |-> RExpr(n < 0)]>>, <<>>)
      [] r = 8 -> Plain("link", <<[n |-> "href", k |-> "c", x |-> Tag("/x?a=1&b=", n), e |-> RExpr(n < 0)]>>, <<>>)
      [] r = 9 -> Plain("option", <<[n |-> "value", k |-> "s", x |-> "~D~"]>>, RTexts(1 + 0 * n))
      [] r = 10 -> Plain("custom-el", RAttrs(Tag("custom-el", n), FALSE), RTexts(2 + 0 * n))
Mixed(n) == LET r == RandomElement(1..5 + 0 * n) IN
    CASE r = 1 -> Special(n)
      [] r = 2 -> [t |-> "val", e |-> RExprM(2 + 0 * n, FALSE), b |-> TLCEval(<<Special(n), IF Chance(50 + 0 * n) THEN [t |-> "none"] ELSE Special(n + 1)>>)]
      [] r = 3 -> [t |-> "frag", c |-> TLCEval([i \in 1..RandomElement(1..2 + 0 * n) |-> Special(n + i)])]
      [] OTHER -> Gen(Levels - 1 + 0 * n, FALSE)
Extra(n, m) == TLCEval([i \in 1..n |-> Special(m + i)])
\* html, head and body: often with attributes which may be missing
RootAttrs(n) ==
    IF Chance(50 + 0 * n) THEN RAttrs(Tag("div", n), FALSE)
    ELSE LET n1 == RandomElement({Tag("data-x", n), "title", "id"}) IN
         <<[n |-> n1, k |-> "w", j |-> RandomElement(1..2 + 0 * n)],
           RAttrOf(RandomElement(Names \ {n1}), n < 0)>>
Docu(n) ==
    Plain("html", RootAttrs(n),
        TLCEval(<<Plain("head", RootAttrs(n + 1), Extra(RandomElement(0..3 + 0 * n), n)),
                  [El(Tag("body", n), FALSE, TLCEval([i \in 1..RandomElement(1..4 + 0 * n) |-> Mixed(n + i)])) EXCEPT !.ev = <<>>, !.at = RootAttrs(n + 2)]>>))

Draw ==
    /\ tree = <<>>
    /\ \E t \in {TLCEval(Docu(Len(hist) + ndone))} : \E e \in {TLCEval(REnv(0))} : \E s \in {Start(t, e)} :
          tree' = t /\ S' = s /\ hist' = <<[op |-> <<"start">>, env |-> e]>>
    /\ UNCHANGED <<ndone, id>>
Change ==
    /\ tree # <<>> /\ ndone < Steps
    /\ \E o \in {<<"tx", ROps(RandomElement(1..4))>>} : \E T \in {Transact([S EXCEPT !.log = <<>>], o[2])} :
          S' = T /\ hist' = Append(hist, [op |-> o])
    /\ ndone' = ndone + 1 /\ UNCHANGED <<tree, id>>
\* the page is sent some time
Send ==
    /\ tree # <<>> /\ ndone <= Steps /\ (ndone = Steps \/ Chance(15 + 0 * ndone))
    /\ PrintT("@@" \o ToJson([tree |-> tree, hist |-> hist, dom |-> Flatten(S.inst)]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<tree, S, hist, id>>
SNext == Draw \/ Change \/ Send
SSpec == Init /\ [][SNext]_vars
=============================================================================
