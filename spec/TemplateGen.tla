---------------------------- MODULE TemplateGen ----------------------------
(* The pages of PageGen, written as templates in ways chosen at random.      *)
EXTENDS PageGen, Template
VARIABLE src
tvars == <<vars, src>>

F(z) == RandomElement(0..59 + 0 * z)
SAttr(a) == [f |-> F(0)] @@ a
SEv(h) == [f |-> F(0)] @@ h

\* an element becomes a component: its own texts and fixed attributes become arguments, some of them
IsArg(k) == k.t \in {"text", "etext"} /\ k.f % 3 # 0
IsArgA(a) == a.k = "s" /\ a.f % 2 = 0
Comp(t) ==
    LET ks == SelectSeq([i \in DOMAIN t.c |-> i], LAMBDA i : IsArg(t.c[i]))
        as == SelectSeq([i \in DOMAIN t.at |-> i], LAMBDA i : IsArgA(t.at[i]))
        pos(s, i) == CHOOSE j \in DOMAIN s : s[j] = i
        arg(k) == IF k.t = "text" THEN [k |-> "s", x |-> k.x, f |-> F(0)] ELSE [k |-> "c", e |-> k.e, f |-> F(0)]
        body == [t EXCEPT !.c = TLCEval([i \in DOMAIN t.c |->
                              IF ~IsArg(t.c[i]) THEN t.c[i]
                              ELSE IF t.c[i].t = "text" THEN [t |-> "arg", j |-> pos(ks, i), f |-> F(0)]
                              ELSE [t |-> "carg", x |-> t.c[i].x, j |-> pos(ks, i), f |-> F(0)]]),
                          !.at = TLCEval([i \in DOMAIN t.at |->
                              IF ~IsArgA(t.at[i]) THEN t.at[i] ELSE [n |-> t.at[i].n, k |-> "arg", j |-> Len(ks) + pos(as, i), f |-> F(0)]])]
    IN [t |-> "comp", f |-> F(0), body |-> body,
        args |-> TLCEval([j \in DOMAIN ks |-> arg(t.c[ks[j]])]) \o TLCEval([j \in DOMAIN as |-> [k |-> "s", x |-> t.at[as[j]].x, f |-> F(0)]])]

RECURSIVE Surface(_)
SAll(c) == TLCEval([i \in DOMAIN c |-> Surface(c[i])])
Surface(t) ==
    CASE t.t = "el" ->
           LET e == [t |-> "el", tag |-> t.tag, at |-> TLCEval([i \in DOMAIN t.at |-> SAttr(t.at[i])]), css |-> t.css, sus |-> t.sus,
                     ev |-> TLCEval([i \in DOMAIN t.ev |-> SEv(t.ev[i])]), c |-> SAll(t.c), f |-> F(0)] IN
           IF Chance(22) THEN Comp(e) ELSE e
      [] t.t \in {"val", "list"} -> [[f |-> F(0)] @@ t EXCEPT !.b = SAll(t.b)]
      [] t.t = "frag" -> [[f |-> F(0)] @@ t EXCEPT !.c = SAll(t.c)]
      [] OTHER -> [f |-> F(0)] @@ t

TInit == Init /\ src = <<>>
TBuild == Build /\ \E s \in {TLCEval(Surface(tree'))} : src' = s
TEmit ==
    /\ tree # <<>> /\ ndone = Steps
    /\ PrintT("@@" \o ToJson([tree |-> tree, src |-> src, hist |-> hist]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<tree, S, hist, id, src>>
TNext == \/ TBuild \/ TEmit
         \/ (\E c \in {Chance(40 + 0 * ndone)} : IF c THEN Ev ELSE Tx) /\ UNCHANGED src
TSpec == TInit /\ [][TNext]_tvars

GoodT == Good /\ (src # <<>> => Mean(src, <<>>) = tree)
=============================================================================
