------------------------------ MODULE Startup ------------------------------
(* The first content of the page (D07): held back until the application has   *)
(* started and what it asked for meanwhile has been answered; from then on    *)
(* every transaction's changes are delivered at its end.                      *)
EXTENDS Loop

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* show: what the page is made of; cs: cached resources (val: "U" or a resource; job: "no", "queued", "out", "answered");
\* fs: requests of the application's own; vars; q: the timer callbacks to come; cnt, ready: what the first content waits for;
\* view: the content as of the last transaction; page: the content which the browser has; del: deliveries in this step
InitState(show, server) ==
    [show |-> show, cs |-> <<>>, fs |-> <<>>, vars |-> <<>>, q |-> <<>>, cnt |-> 0, ready |-> FALSE, started |-> FALSE, early |-> {}, view |-> "", calm |-> TRUE,
     page |-> server, server |-> server, del |-> 0, sent |-> <<>>, log |-> <<>>]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Var(s, v) == IF v \in DOMAIN s.vars THEN s.vars[v] ELSE 0

RECURSIVE Render(_, _)
Render(s, show) ==
    IF show = <<>> THEN ""
    ELSE LET d == Head(show) IN
         (CASE d.k = "text" -> d.s
            [] d.k = "var" -> "<p>" \o ToString(Var(s, d.v)) \o "</p>"
            [] d.k = "rows" -> "<ul>~ROWS" \o ToString(Var(s, d.v) % 3) \o "~</ul>"
            [] d.k = "cache" -> LET v == s.cs[d.c].val IN
                 "<div>" \o (CASE v[1] \in {"U", "L"} -> "<vertigo-suspense></vertigo-suspense>"
                               [] v[1] = "R" -> "<span>" \o ToString(v[2]) \o Render(s, d.in) \o "</span>"
                               [] OTHER -> "<div>error = " \o ToString(v[2]) \o "</div>") \o "</div>") \o Render(s, Tail(show))
\* the caches which are read to show that
RECURSIVE Reads(_, _)
Reads(s, show) ==
    IF show = <<>> THEN {}
    ELSE LET d == Head(show) IN
         (IF d.k # "cache" THEN {} ELSE {d.c} \cup (IF s.cs[d.c].val[1] = "R" THEN Reads(s, d.in) ELSE {})) \cup Reads(s, Tail(show))

CacheOut(s) == {c \in DOMAIN s.cs : s.cs[c].job = "out"}
FetchOut(s) == {i \in DOMAIN s.fs : s.fs[i].ph = "out"}
Up(s) == IF s.ready THEN s ELSE [s EXCEPT !.cnt = @ + 1]
\* everything has settled: what has accumulated is delivered, as of the last transaction
Down(s) == IF s.ready THEN s
           ELSE IF s.cnt > 1 THEN [s EXCEPT !.cnt = @ - 1]
           ELSE [s EXCEPT !.cnt = 0, !.ready = TRUE, !.page = s.view, !.del = @ + 1, !.calm = s.fs = <<>> \/ FetchOut(s) = {}, !.early = {c \in @ : s.cs[c].job # "no"}]
Arm(s, k, i) == [s EXCEPT !.q = Append(@, <<k, i>>)]
Update(s, c, loading, force) ==
    IF s.cs[c].job # "no" THEN s
    ELSE Arm(Up([s EXCEPT !.cs[c].job = "queued", !.cs[c].loading = loading, !.cs[c].force = force, !.early = IF s.started THEN @ ELSE @ \cup {c}]), "cache", c)
Touch(s, c) == IF s.cs[c].val[1] = "U" THEN Update(s, c, FALSE, FALSE) ELSE s
RECURSIVE TouchAll(_, _)
TouchAll(s, cc) == IF cc = {} THEN s ELSE LET c == CHOOSE x \in cc : \A y \in cc : x <= y IN TouchAll(Touch(s, c), cc \ {c})
\* the end of a transaction
Notify(s) ==
    IF ~s.started THEN s
    ELSE LET T == TouchAll(s, Reads(s, s.show)) v == Render(T, T.show) IN
         IF T.ready /\ v # T.page THEN [T EXCEPT !.view = v, !.page = v, !.del = @ + 1] ELSE [T EXCEPT !.view = v]

Op(s, o) ==
    CASE o[1] = "log" -> Say(s, <<"log", o[2]>>)
      [] o[1] = "set" -> [s EXCEPT !.vars = Put(@, o[2], o[3])]
      [] o[1] = "cache" -> [s EXCEPT !.cs = Put(@, o[2], [url |-> o[3][1][2], val |-> <<"U">>, job |-> "no", loading |-> FALSE, force |-> FALSE, ans |-> <<>>])]
      [] o[1] = "fetch" -> Arm([s EXCEPT !.fs = Put(@, o[2], [url |-> o[3][1][2], ph |-> "new", ops |-> o[4], ans |-> <<>>])], "fetch", o[2])
      [] o[1] = "force" -> Update(s, o[2], o[3], TRUE)
      [] o[1] = "update" -> Update(s, o[2], FALSE, FALSE)
      [] o[1] = "forget" -> [s EXCEPT !.cs[o[2]].val = <<"U">>]
RECURSIVE Ops(_, _)
\* outside of a transaction every operation is one of its own
Ops(s, l) == IF l = <<>> THEN s ELSE Ops(Op(s, Head(l)), Tail(l))
RECURSIVE Each(_, _)
Each(s, l) == IF l = <<>> THEN s ELSE Each(Notify(Op(s, Head(l))), Tail(l))

\* one timer callback, which is one transaction
Fire(s) ==
    LET T == [s EXCEPT !.q = Tail(@)] i == Head(s.q)[2] IN
    Notify(
    IF Head(s.q)[1] = "fetch" THEN
        IF T.fs[i].ph = "new" THEN Up([T EXCEPT !.fs[i].ph = "out", !.sent = Append(@, T.fs[i].url)])
        ELSE Ops(Say([T EXCEPT !.fs[i].ph = "done"], <<"resp", i, T.fs[i].ans[1], T.fs[i].ans[2]>>), T.fs[i].ops)
    ELSE LET k == T.cs[i] IN
        IF k.job = "queued" THEN
            IF k.force \/ k.val[1] = "U" THEN
                Up([T EXCEPT !.cs[i].job = "out", !.cs[i].val = IF k.loading THEN <<"L">> ELSE @, !.sent = Append(@, k.url)])
            ELSE Down([T EXCEPT !.cs[i].job = "no"])
        ELSE Down([T EXCEPT !.cs[i].val = k.ans, !.cs[i].job = "no"]))
RECURSIVE Run(_)
Run(s) == IF s.q = <<>> THEN s ELSE Run(Fire(s))

Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.sent = <<>>, !.del = 0] IN
    CASE h[1] = "app" /\ h[2][1] = "tx" -> Run(Notify(Ops(T, h[2][2])))
      [] h[1] = "app" /\ h[2][1] # "tx" -> Run(Notify(Op(T, h[2])))
      [] h[1] = "wait" -> Run(T)
      [] h[1] = "cache" -> LET c == h[2] IN
             Run(Down(Arm([T EXCEPT !.cs[c].job = "answered", !.cs[c].ans = IF h[3].status = 200 THEN <<"R", h[3].body>> ELSE <<"E", h[3].status>>], "cache", c)))
      [] h[1] = "fetch" -> LET i == h[2] IN
             Run(Down(Arm([T EXCEPT !.fs[i].ph = "answered", !.fs[i].ans = IF h[3].status = 0 THEN <<"null", "E">> ELSE <<h[3].status, <<h[3].status, "json", h[3].body>>>>], "fetch", i)))
\* the application is built, put in the page, and left to the browser
Start(s, init, late) ==
    LET A == Ops(s, init)
        B == TouchAll(A, Reads(A, A.show))
        C == Ops(B, late)
        D == Up([C EXCEPT !.view = Render(C, C.show)])
        E == [Down(D) EXCEPT !.started = TRUE] IN
    Run(E)

Do(s, h) == CASE h[1] = "cache" -> <<"answer", s.cs[h[2]].url, h[3]>> [] h[1] = "fetch" -> <<"answer", s.fs[h[2]].url, h[3]>> [] OTHER -> h
Asked(s) == [i \in DOMAIN s.sent |-> [m |-> "GET", url |-> s.sent[i], h |-> {}, b |-> <<>>]]
\* the number of deliveries is compared except when the first content comes
Rec(s, t) == [log |-> t.log, fetch |-> Asked(t), fbag |-> TRUE, page |-> t.page, all |-> TRUE]
Record(s, h, t) == IF t.ready /\ ~s.ready THEN Rec(s, t) @@ [do |-> Do(s, h)] ELSE Rec(s, t) @@ [do |-> Do(s, h), batches |-> t.del]

-----------------------------------------------------------------------------
\* what D07 promises, on the state
Out(s) == 2 * Cardinality({c \in DOMAIN s.cs : s.cs[c].job = "out"}) + Cardinality({c \in DOMAIN s.cs : s.cs[c].job \in {"queued", "answered"}}) + Cardinality(FetchOut(s))
Held(s) == ~s.ready => s.page = s.server /\ s.cnt = Out(s) /\ s.cnt > 0
\* nothing which was started during the start, and no request, is under way when the first content comes
Waited(s) == s.ready => s.calm /\ s.early = {}
Shown(s) == s.ready => s.page = Render(s, s.show) /\ s.view = s.page
Loading(s) == \A c \in Reads(s, s.show) : s.cs[c].val[1] = "U" => s.cs[c].job # "no"
Good1(s) == s.started /\ Held(s) /\ Waited(s) /\ Shown(s) /\ Loading(s) /\ s.q = <<>>
=============================================================================
