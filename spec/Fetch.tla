-------------------------------- MODULE Fetch -------------------------------
(* Requests and responses of an application in the browser (F02).              *)
(*                                                                            *)
(* A request is given by the calls on its builder; what the browser is asked   *)
(* for is a function of them.  Each request is a future of its own: started    *)
(* by a timer callback, put on the network once, answered once, and resumed    *)
(* by another timer callback.  Contents are named; the harness holds a text,   *)
(* a JSON and a byte view of every name.                                       *)
EXTENDS Loop

\* names of bodies which are valid JSON texts
JsonBodies == {"j1", "j2", "j3", "j4", "j5", "j6", "j7"}
TextBodies == {"t1", "t2", "t3", "t4"}
ByteBodies == {"x1", "x2", "x3"}
AllBodies == JsonBodies \cup TextBodies \cup ByteBodies
JsonTypes == {"application/json", "application/json; charset=utf-8", "APPLICATION/JSON", "Application/Json ; x=y"}
TextTypes == {"text/plain", "text/plain;charset=utf-8", "Text/Plain"}
OtherTypes == {"text/html", "application/octet-stream", "application/jsonp", "image/png", "text/plainer", "none"}
NoBody == {204, 205, 304}
Methods == {"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

\* headers are compared without case; the names used
Header(n) == CASE n = "X-A" -> "x-a" [] n = "Accept" -> "accept" [] n = "Content-Type" -> "content-type" [] n = "content-type" -> "content-type"
               [] n = "Authorization" -> "authorization" [] n = "X-Bad" -> "x-bad"
\* a header value which no request may carry
BadValue(v) == v \in {"~U~", "~N~"}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* headers by the exact name, as the builder keeps them
Plain == [m |-> "GET", url |-> "", h |-> <<>>, b |-> <<>>]
Build(r, s) ==
    CASE s[1] = "new" -> [Plain EXCEPT !.m = s[2], !.url = s[3]]
      [] s[1] \in {"get", "dget"} -> [Plain EXCEPT !.m = "GET", !.url = s[2]]
      [] s[1] \in {"post", "dpost"} -> [Plain EXCEPT !.m = "POST", !.url = s[2]]
      [] s[1] = "header" -> [r EXCEPT !.h = Put(@, s[2], s[3])]
      [] s[1] = "bearer" -> [r EXCEPT !.h = Put(@, "Authorization", "Bearer " \o s[2])]
      [] s[1] = "headers" -> LET q == s[2]
                                 f[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE Put(f[i - 1], q[i][1], q[i][2]) IN [r EXCEPT !.h = f[Len(q)]]
      [] s[1] = "text" -> [r EXCEPT !.b = <<"text", s[2]>>]
      [] s[1] = "json" -> [r EXCEPT !.b = <<"json", s[2]>>]
      [] s[1] = "vec" -> [r EXCEPT !.b = <<"vec", s[2]>>]
      [] s[1] = "bin" -> [r EXCEPT !.b = <<"bin", s[2]>>]
      [] OTHER -> r
Built(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN Plain ELSE Build(f[i - 1], q[i]) IN f[Len(q)]

DefaultType(k) == CASE k = "text" -> "text/plain; charset=utf-8" [] k = "bin" -> "application/octet-stream" [] OTHER -> "application/json; charset=utf-8"
\* what the browser is asked for
Asked(q) ==
    LET r == Built(q)
        given == {<<Header(n), r.h[n]>> : n \in DOMAIN r.h}
        all == IF r.b = <<>> \/ \E x \in given : x[1] = "content-type" THEN given ELSE given \cup {<<"content-type", DefaultType(r.b[1])>>} IN
    [m |-> r.m, url |-> r.url, h |-> all, b |-> r.b]
\* requests browsers refuse: methods, bodies where there may be none, header values, addresses
Refused(q) ==
    LET a == Asked(q) IN
    \/ a.m \in {"CONNECT", "TRACE"}
    \/ a.b # <<>> /\ a.m \in {"GET", "HEAD"}
    \/ \E x \in a.h : BadValue(x[2])
    \/ a.url = "http://"

\* s: now, ts, rq (id -> request), net (ids in the order of their requests), sent (during this step), log
InitState == [now |-> 0, ts |-> <<>>, rq |-> <<>>, net |-> <<>>, sent |-> <<>>, log |-> <<>>]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Poll(s, id) == [s EXCEPT !.ts = Append(@, [at |-> s.now, kind |-> "poll", id |-> id])]

Op(s, o) ==
    CASE o[1] = "fetch" -> Poll([s EXCEPT !.rq = Put(@, o[2], [req |-> o[3], ops |-> o[4], ph |-> "new", ans |-> <<>>, resumed |-> 0])], o[2])
      [] o[1] = "log" -> Say(s, o)
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))

Failed == <<"null", "E">>
Settle(s, id, ans) == Poll([s EXCEPT !.rq[id].ph = "answered", !.rq[id].ans = ans], id)

Fire(s) ==
    LET i == NextTimer(s.ts)
        id == s.ts[i].id
        T == [s EXCEPT !.ts = Without(@, i), !.now = Later(@, s.ts[i].at)]
        k == s.rq[id] IN
    IF k.ph = "new" THEN
        IF Refused(k.req) THEN Settle(T, id, Failed)
        ELSE [T EXCEPT !.rq[id].ph = "out", !.net = Append(@, id), !.sent = Append(@, Asked(k.req))]
    ELSE Ops(Say([T EXCEPT !.rq[id].ph = "done", !.rq[id].resumed = @ + 1], <<"resp", id, k.ans[1], k.ans[2]>>), k.ops)

RECURSIVE Advance(_, _)
Advance(s, to) ==
    IF s.ts # <<>> /\ s.ts[NextTimer(s.ts)].at <= to THEN Advance(Fire(s), to) ELSE [s EXCEPT !.now = Later(@, to)]

\* the content of a response; r: [status, type, body]; "cut" is a body which breaks off
Answer(r) ==
    LET kind == IF r.type \in JsonTypes THEN "json" ELSE IF r.type \in TextTypes THEN "text" ELSE "bin"
        b == IF r.status \in NoBody THEN "t3" ELSE r.body IN
    IF b = "cut" \/ (kind = "json" /\ b \notin JsonBodies) THEN Failed
    ELSE <<r.status, <<r.status, kind, IF kind = "json" THEN "%j:" \o b ELSE IF kind = "text" THEN "%t:" \o b ELSE "%x:" \o b>>>>

\* In which order futures are resumed whose requests are answered at the same time is left open, and so is whether a
\* refused request is answered at once or a moment later: whatever follows from it happens within the same step here,
\* and the events of a step are compared as a bag.
\* host actions: app op, timer, wait ms, respond n r, fail n, head n (the status and headers come first), body n
Out(s) == {n \in DOMAIN s.net : s.rq[s.net[n]].ph = "out"}
Half(s) == {n \in DOMAIN s.net : s.rq[s.net[n]].ph = "half"}
Hasty(s, t) == \E id \in DOMAIN s.rq : s.rq[id].ph = "new" /\ t.rq[id].ph = "answered"
Url(s, n) == Asked(s.rq[s.net[n + 1]].req).url
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.sent = <<>>] IN
    CASE h[1] = "app" -> Op(T, h[2])
      [] h[1] = "timer" -> IF T.ts = <<>> THEN T ELSE LET U == Fire(T) IN IF Hasty(T, U) THEN Advance(U, U.now) ELSE U
      [] h[1] = "wait" -> Advance(T, T.now + h[2])
      [] h[1] = "respond" -> Settle(T, T.net[h[2] + 1], IF h[3].status = 0 THEN Failed ELSE Answer(h[3]))
      [] h[1] = "head" -> LET id == T.net[h[2] + 1] IN [T EXCEPT !.rq[id].ph = "half", !.rq[id].ans = Answer(h[3])]
      [] h[1] = "body" -> LET id == T.net[h[2] + 1] IN Settle(T, id, T.rq[id].ans)

Record(s, h, t) ==
    [do |-> h \o (IF h[1] \in {"respond", "head", "body"} THEN <<Url(s, h[2])>> ELSE <<>>), log |-> t.log, fetch |-> t.sent, bag |-> TRUE,
     all |-> h[1] = "timer" /\ s.ts # <<>> /\ Hasty(s, Fire(s))]

-----------------------------------------------------------------------------
Good2(s) ==
    \* one request on the network for each that was started and may be sent, each resumed at most once
    /\ \A id \in DOMAIN s.rq : LET k == s.rq[id] IN
          /\ Cardinality({n \in DOMAIN s.net : s.net[n] = id}) = IF k.ph = "new" \/ Refused(k.req) THEN 0 ELSE 1
          /\ k.resumed = IF k.ph = "done" THEN 1 ELSE 0
          /\ (k.ph \in {"new", "answered"}) => \E i \in DOMAIN s.ts : s.ts[i].id = id
=============================================================================
