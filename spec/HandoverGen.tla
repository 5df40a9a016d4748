----------------------------- MODULE HandoverGen -----------------------------
(* The page of the server taken over by the application in the browser (S06).  *)
(* What the application knows may be another thing there (a cookie, the time), *)
(* so that it starts with other values, and may make another page of them (it  *)
(* knows that it is in a browser); whatever the server has sent, the page *)
(* which results is the one which a fresh start with those values has.         *)
EXTENDS SsrPageGen
VARIABLES there, tree2, S2
hvars == <<tree, S, hist, ndone, id, there, tree2, S2>>
HInit == Init /\ there = <<>> /\ tree2 = <<>> /\ S2 = <<>>
\* the page in the browser: the same one, with other attributes of html, head and body, or another one
Elsewhere(t, r, n) ==
    IF r <= 50 THEN t
    ELSE IF r <= 85 THEN [t EXCEPT !.at = RootAttrs(n), !.c = TLCEval(<<[t.c[1] EXCEPT !.at = RootAttrs(n + 1)], [t.c[2] EXCEPT !.at = RootAttrs(n + 2)]>>)]
    ELSE Docu(n)
Env(n) == [v |-> TLCEval([i \in 1..NV |-> RandomElement(0..3 + 0 * n)]), l |-> TLCEval([i \in 1..NL |-> RKeys(RandomElement(1..9 + 0 * n))]),
           s |-> TLCEval([i \in 1..NS |-> RandomElement(Strs \cup {Tag("", n)})]), o |-> TLCEval([i \in 1..NO |-> RandomElement(Strs \cup {Tag(None, n)})])]
HDraw ==
    /\ Draw
    /\ \E e \in {IF Chance(50 + 0 * Len(hist)) THEN hist'[1].env ELSE TLCEval(Env(Len(hist')))} :
       \E t \in {TLCEval(Elsewhere(tree', RandomElement(1..100 + 0 * Len(hist')), Len(hist')))} :
          there' = e /\ tree2' = t /\ S2' = Start(t, e)
HChange ==
    /\ Change
    /\ S2' = Transact([S2 EXCEPT !.log = <<>>], hist'[Len(hist')].op[2])
    /\ UNCHANGED <<there, tree2>>
HSend ==
    /\ tree # <<>> /\ ndone <= Steps /\ (ndone = Steps \/ Chance(15 + 0 * ndone))
    /\ PrintT("@@" \o ToJson([tree |-> tree, hist |-> hist, dom |-> Flatten(S.inst), there |-> there, treeThere |-> tree2, domThere |-> Flatten(S2.inst)]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<tree, S, hist, id, there, tree2, S2>>
HNext == HDraw \/ HChange \/ HSend
HSpec == HInit /\ [][HNext]_hvars
\* started with the same values both have the same page
Same == tree # <<>> /\ there = hist[1].env /\ tree2 = tree => Flatten(S2.inst) = Flatten(S.inst)
=============================================================================
