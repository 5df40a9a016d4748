------------------------------- MODULE Router ------------------------------
(* Routers (F04): a route and the browser's location follow each other.        *)
EXTENDS Loop

\* A location is [p, q, h]: path, query and fragment as the browser writes them. For hash routers the fragment is a
\* sequence of atoms, so that the percent-encoding of the browser and the decoding of the router can be applied to it.
RawAtom(a) == CASE a = " " -> "%20" [] a = "~Z~" -> "%C5%BC" [] OTHER -> a
DecAtom(a) == CASE a = "%20" -> " " [] a = "%C5%BC" -> "~Z~" [] OTHER -> a
Raw(t) == [i \in DOMAIN t |-> RawAtom(t[i])]
Dec(t) == [i \in DOMAIN t |-> DecAtom(t[i])]
RECURSIVE Str(_)
Str(t) == IF t = <<>> THEN "" ELSE Head(t) \o Str(Tail(t))

\* resolution of a (relative) address against the current location
Resolve(cur, t) == IF t.p # "" THEN [p |-> t.p, q |-> t.q, h |-> t.h]
                   ELSE IF t.q # "" THEN [p |-> cur.p, q |-> t.q, h |-> t.h]
                   ELSE [p |-> cur.p, q |-> cur.q, h |-> t.h]

\* k: "hash" or "history"; es, ix: the browser's entries and the position in them; tasks: events of the browser which
\* are still to come; rt: routers (val: the route as printed, on: listening to the browser); sb: subscribers
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
InitState(k, loc) == [k |-> k, es |-> <<loc>>, ix |-> 1, tasks |-> <<>>, rt |-> <<>>, sb |-> <<>>, deep |-> FALSE, log |-> <<>>]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Loc(s) == s.es[s.ix]
HashOf(s, l) == IF s.k = "hash" THEN (IF l.h = <<>> THEN "" ELSE "#" \o Str(l.h)) ELSE l.h
Written(s) == Loc(s).p \o Loc(s).q \o HashOf(s, Loc(s))
\* what the location says
Parse(s) == IF s.k = "hash" THEN Str(Dec(Loc(s).h)) ELSE Written(s)

Push(s, l) == [s EXCEPT !.es = Append(SubSeq(@, 1, s.ix), l), !.ix = @ + 1]
\* the location changes within the page: the browser reports it later
Fragment(s, l) == IF l = Loc(s) THEN s ELSE [Push(s, l) EXCEPT !.tasks = @ \o <<<<"pop">>, <<"hash">>>>]

RECURSIVE Tell(_, _)
Tell(s, us) ==
    IF us = {} THEN s
    ELSE LET u == CHOOSE x \in us : \A y \in us : x <= y
             v == s.rt[s.sb[u].r].val IN
         Tell(IF s.sb[u].last = v THEN s ELSE Say([s EXCEPT !.sb[u].last = v], <<"route", u, v>>), us \ {u})
Notify(s) == IF s.deep THEN s ELSE Tell(s, {u \in DOMAIN s.sb : s.sb[u].live})
\* every router which listens takes the route from the location
Report(s) == Notify([s EXCEPT !.rt = [r \in DOMAIN @ |-> IF @[r].on THEN [@[r] EXCEPT !.val = Parse(s)] ELSE @[r]]])
Listen(s, r) == IF s.rt[r].on THEN s ELSE [s EXCEPT !.rt[r].on = TRUE, !.rt[r].val = Parse(s)]

Set(s, t) ==
    IF s.k = "hash" THEN
        IF Dec(Loc(s).h) = t THEN s ELSE Report(Fragment(s, [Loc(s) EXCEPT !.h = Raw(t)]))
    ELSE LET l == Resolve(Loc(s), t) IN IF l = Loc(s) THEN s ELSE Report(Push(s, l))
Replace(s, t) == LET l == Resolve(Loc(s), t) IN IF l = Loc(s) THEN s ELSE Report([s EXCEPT !.es[s.ix] = l])
\* what is printed for the route with something appended
Longer(s, x) == IF s.k = "hash" THEN Append(Dec(Loc(s).h), x)
                ELSE LET l == Loc(s) IN IF l.h # "" THEN [l EXCEPT !.h = @ \o x] ELSE IF l.q # "" THEN [l EXCEPT !.q = @ \o x] ELSE [l EXCEPT !.p = @ \o x]
Observed(s, r) == s.rt[r].shown \/ \E u \in DOMAIN s.sb : s.sb[u].live /\ s.sb[u].r = r

Op(s, o) ==
    CASE o[1] = "router" -> [s EXCEPT !.rt = Put(@, o[2], [val |-> Parse(s), on |-> FALSE, shown |-> FALSE])]
      [] o[1] = "rset" -> Set(s, o[3])
      [] o[1] = "rtset" -> Set(s, o[3])
      \* only while the route is up to date (no report of the browser to come)
      [] o[1] = "rchange" -> LET t == Listen(s, o[2]) IN Set(t, Longer(t, o[3]))
      [] o[1] = "rget" -> LET t == Listen(s, o[2]) IN Say(t, <<"rget", o[2], t.rt[o[2]].val>>)
      [] o[1] = "hreplace" -> Replace(s, o[2])
      [] o[1] = "back" -> [s EXCEPT !.tasks = Append(@, <<"go", -1>>)]
      [] o[1] = "rsub" -> LET t == Listen(s, o[3]) v == t.rt[o[3]].val IN
                          Say([t EXCEPT !.sb = Put(@, o[2], [r |-> o[3], live |-> TRUE, last |-> v])], <<"route", o[2], v>>)
      [] o[1] = "unsub" -> LET t == [s EXCEPT !.sb[o[2]].live = FALSE] r == s.sb[o[2]].r IN
                           IF Observed(t, r) THEN t ELSE [t EXCEPT !.rt[r].on = FALSE]
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))

\* one event of the browser
Task(s) ==
    LET t == Head(s.tasks) T == [s EXCEPT !.tasks = Tail(@)] IN
    CASE t[1] = "pop" -> IF s.k = "history" THEN Report(T) ELSE T
      [] t[1] = "hash" -> IF s.k = "hash" THEN Report(T) ELSE T
      [] t[1] = "go" -> IF s.ix + t[2] \notin DOMAIN s.es THEN T
                        ELSE LET U == [T EXCEPT !.ix = @ + t[2]] IN
                             IF s.k = "history" \/ Loc(U).h # Loc(s).h THEN Report(U) ELSE U
RECURSIVE Drain(_)
Drain(s) == IF s.tasks = <<>> THEN s ELSE Drain(Task(s))
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>] IN
    CASE h[1] = "app" /\ h[2][1] = "tx" -> Notify([Ops([T EXCEPT !.deep = TRUE], h[2][2]) EXCEPT !.deep = FALSE])
      [] h[1] = "app" /\ h[2][1] # "tx" -> Op(T, h[2])
      [] h[1] = "task" -> Task(T)
      [] h[1] = "drain" -> Drain(T)
      [] h[1] = "go" -> [T EXCEPT !.tasks = Append(@, <<"go", h[2]>>)]
      \* the user edits the address, or follows a link
      [] h[1] = "hash" -> Fragment(T, [Loc(T) EXCEPT !.h = h[2]])
      \* a link to somewhere else is the browser's
      [] h[1] = "out" -> T
      [] h[1] = "click" -> IF T.k = "hash" THEN Fragment(T, [Loc(T) EXCEPT !.h = Raw(h[2])])
                           ELSE IF h[2].p = "" /\ h[2].q = "" /\ h[2].h # "" THEN Fragment(T, Resolve(Loc(T), h[2])) ELSE Set(T, h[2])

\* the texts of the operations, for the replay
Text(s, t) == IF s.k = "hash" THEN Str(t) ELSE t.t
OpText(s, o) ==
    CASE o[1] \in {"rset", "rtset"} -> <<o[1], o[2], Text(s, o[3])>>
      [] o[1] = "hreplace" -> <<o[1], Text(s, o[2])>>
      [] OTHER -> o
DoText(s, h) ==
    CASE h[1] = "app" /\ h[2][1] = "tx" -> <<"app", <<"tx", [i \in DOMAIN h[2][2] |-> OpText(s, h[2][2][i])]>>>>
      [] h[1] = "app" /\ h[2][1] # "tx" -> <<"app", OpText(s, h[2])>>
      [] h[1] = "hash" -> <<"hash", IF s.k = "hash" THEN Str(h[2]) ELSE h[2]>>
      [] h[1] = "click" -> <<"click", IF s.k = "hash" THEN "#" \o Str(h[2]) ELSE h[2].t>>
      [] OTHER -> h
RECURSIVE Page(_, _)
Page(s, show) == IF show = <<>> THEN ""
                 ELSE (IF Head(show).k = "link" THEN "<a href=\"" \o Head(show).href \o "\">" \o Head(show).href \o "</a>"
                       ELSE "<b>" \o s.rt[Head(show).r].val \o "</b>") \o Page(s, Tail(show))
\* nobody listens: then the browser does not call the application
Silent(s, t) == \A r \in DOMAIN t.rt : ~t.rt[r].on /\ (r \in DOMAIN s.rt => ~s.rt[r].on)
Record(s, h, t, show) == [silent |-> Silent(s, t) /\ h[1] \notin {"app"}, do |-> DoText(s, h), log |-> t.log, loc |-> <<Written(t), Len(t.es), t.ix - 1>>, page |-> Page(t, show), left |-> IF h[1] = "out" THEN <<h[2]>> ELSE <<>>]

-----------------------------------------------------------------------------
\* what F04 promises, on the state: once the browser has reported everything, who listens agrees with the location
Follows(s) == s.tasks = <<>> => \A r \in DOMAIN s.rt : s.rt[r].on => s.rt[r].val = Parse(s)
Heard(s) == \A u \in DOMAIN s.sb : s.sb[u].live => s.rt[s.sb[u].r].on /\ s.sb[u].last = s.rt[s.sb[u].r].val
Quiet(s) == \A r \in DOMAIN s.rt : Observed(s, r) => s.rt[r].on
Good1(s) == Follows(s) /\ Heard(s) /\ Quiet(s) /\ s.ix \in DOMAIN s.es /\ ~s.deep
=============================================================================
