------------------------------ MODULE LazyCache -----------------------------
(* Cached resources (F01): a value which is requested when it is read and      *)
(* missing or out of date, at most one request at a time, and observed like    *)
(* any other value.                                                            *)
EXTENDS Loop

\* s: now; ts (pending timers: resumptions of cache jobs); cs (caches); mm (observed computeds: key -> cache and value);
\*    sb (subscribers); dirty (caches set in the running transaction); sent; log
\* A cache: url, ttl (seconds, -1: none), val ("U" or a resource), exp (-1: never), job:
\*   "no" | "queued" (its update is waiting for its turn) | "out" (its request is) | "answered"
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
InitState == [now |-> 0, ts |-> <<>>, cs |-> <<>>, mm |-> <<>>, sb |-> <<>>, dirty |-> {}, sent |-> <<>>, log |-> <<>>, why |-> {}]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Arm(s, c) == [s EXCEPT !.ts = Append(@, [at |-> s.now, kind |-> "job", id |-> c])]
Uninit == <<"U">>
Shown(v) == IF v = Uninit THEN <<"L">> ELSE v

NeedsUpdate(s, c) == s.cs[c].val = Uninit \/ (s.cs[c].exp # -1 /\ s.now > s.cs[c].exp)
Update(s, c, loading, force) ==
    IF s.cs[c].job # "no" THEN s
    ELSE Arm([s EXCEPT !.cs[c].job = "queued", !.cs[c].loading = loading, !.cs[c].force = force], c)
\* reading: asks for a request if one is needed
Touch(s, c) == IF NeedsUpdate(s, c) THEN Update(s, c, FALSE, FALSE) ELSE s
SetVal(s, c, v, exp) == [s EXCEPT !.cs[c].val = v, !.cs[c].exp = exp, !.dirty = @ \cup {c}]

\* computeds are shared by the subscribers of the cache, or a subscriber's own
Key(s, u) == IF s.sb[u].own THEN <<"own", u>> ELSE <<"view", s.sb[u].c>>
Live(s, k) == \E u \in DOMAIN s.sb : s.sb[u].live /\ Key(s, u) = k

RECURSIVE Refresh(_, _)
Refresh(s, ks) ==
    IF ks = {} THEN s
    ELSE LET k == CHOOSE x \in ks : TRUE
             c == s.mm[k].c IN
         Refresh([Touch(s, c) EXCEPT !.mm[k].val = Shown(s.cs[c].val)], ks \ {k})
RECURSIVE Tell(_, _)
Tell(s, us) ==
    IF us = {} THEN s
    ELSE LET u == CHOOSE x \in us : \A y \in us : x <= y
             v == s.mm[Key(s, u)].val IN
         Tell(IF s.sb[u].last = v THEN s ELSE Say([s EXCEPT !.sb[u].last = v], <<"cb", u, v>>), us \ {u})
\* the end of a transaction
Notify(s) ==
    LET ks == {k \in DOMAIN s.mm : s.mm[k].c \in s.dirty /\ Live(s, k)}
        T == Refresh(s, ks) IN
    [Tell(T, {u \in DOMAIN T.sb : T.sb[u].live}) EXCEPT !.dirty = {}]

\* the time-to-live in seconds, as the builder was told
TtlOf(q, x) == IF x # -1 THEN x
               ELSE LET t == SelectSeq(q, LAMBDA y : y[1] \in {"ttl", "ttlm", "ttlh", "ttld"}) IN
                    IF t = <<>> THEN -1
                    ELSE LET l == t[Len(t)] IN l[2] * (CASE l[1] = "ttl" -> 1 [] l[1] = "ttlm" -> 60 [] l[1] = "ttlh" -> 3600 [] OTHER -> 86400)
Op(s, o) ==
    CASE o[1] = "cache" -> [s EXCEPT !.cs = Put(@, o[2], [url |-> o[3][1][2], res |-> FALSE, ttl |-> TtlOf(o[3], o[4]), val |-> Uninit, exp |-> -1, job |-> "no",
                                                         loading |-> FALSE, force |-> FALSE, ans |-> <<>>, out |-> 0])]
      [] o[1] = "resource" -> [s EXCEPT !.cs = Put(@, o[2], [url |-> "http://api" \o o[3], res |-> TRUE, ttl |-> o[4], val |-> Uninit, exp |-> -1, job |-> "no",
                                                         loading |-> FALSE, force |-> FALSE, ans |-> <<>>, out |-> 0])]
      [] o[1] = "read" -> Say(Touch(s, o[2]), <<"read", o[2], Shown(s.cs[o[2]].val)>>)
      [] o[1] = "force" -> Update(s, o[2], o[3], TRUE)
      [] o[1] = "update" -> Update(s, o[2], FALSE, FALSE)
      [] o[1] = "forget" -> SetVal(s, o[2], Uninit, -1)
      [] o[1] = "csub" -> LET s1 == [s EXCEPT !.sb = Put(@, o[2], [c |-> o[3], own |-> o[4] = "own", live |-> FALSE, last |-> <<>>])]
                              k == Key(s1, o[2])
                              s2 == IF Live(s1, k) THEN s1
                                    ELSE [Touch(s1, o[3]) EXCEPT !.mm = Put(@, k, [c |-> o[3], val |-> Shown(s1.cs[o[3]].val)])] IN
                          Say([s2 EXCEPT !.sb[o[2]].live = TRUE, !.sb[o[2]].last = s2.mm[k].val], <<"cb", o[2], s2.mm[k].val>>)
      [] o[1] = "unsub" -> IF o[2] \in DOMAIN s.sb THEN [s EXCEPT !.sb[o[2]].live = FALSE] ELSE s
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))

\* resumption of a job
Fire(s) ==
    LET i == NextTimer(s.ts)
        c == s.ts[i].id
        T == [s EXCEPT !.ts = Without(@, i), !.now = Later(@, s.ts[i].at)]
        k == s.cs[c] IN
    Notify(
    IF k.job = "queued" THEN
        IF k.force \/ NeedsUpdate(T, c) THEN
            LET U == IF k.loading THEN SetVal(T, c, <<"L">>, -1) ELSE T IN
            [U EXCEPT !.cs[c].job = "out", !.cs[c].out = @ + 1, !.why = @ \cup {<<k.force, NeedsUpdate(T, c)>>},
                      !.sent = Append(@, [m |-> "GET", url |-> k.url, h |-> {}, b |-> <<>>])]
        ELSE [T EXCEPT !.cs[c].job = "no"]
    ELSE [SetVal(T, c, k.ans, IF k.ttl = -1 THEN -1 ELSE T.now + 1000 * k.ttl) EXCEPT !.cs[c].job = "no", !.cs[c].out = @ - 1])
RECURSIVE Advance(_, _)
Advance(s, to) ==
    IF s.ts # <<>> /\ s.ts[NextTimer(s.ts)].at <= to THEN Advance(Fire(s), to) ELSE [s EXCEPT !.now = Later(@, to)]

\* the answer as the mapping of the cache sees it (new_resource has a mapping of its own, which knows only status 200)
Result(k, r) ==
    IF r.status = 0 THEN <<"E", "net">>
    ELSE IF r.status = 404 /\ ~k.res THEN <<"E", "nf">>
    ELSE IF r.status # 200 THEN <<"E", ToString(r.status)>>
    ELSE IF r.type # "application/json" THEN <<"E", "text">>
    ELSE IF r.body = 0 THEN <<"E", "type">> ELSE <<"R", r.body>>
Pending(s) == {c \in DOMAIN s.cs : s.cs[c].job = "out"}
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.sent = <<>>] IN
    CASE h[1] = "app" /\ h[2][1] = "tx" -> Notify(Ops(T, h[2][2]))
      [] h[1] = "app" /\ h[2][1] # "tx" -> Notify(Op(T, h[2]))
      [] h[1] = "timer" -> IF T.ts = <<>> THEN T ELSE Fire(T)
      [] h[1] = "wait" -> Advance(T, T.now + h[2])
      [] h[1] = "answer" -> Arm([T EXCEPT !.cs[h[2]].job = "answered", !.cs[h[2]].ans = Result(T.cs[h[2]], h[3])], h[2])
Record(s, h, t) == [do |-> IF h[1] = "answer" THEN <<"answer", s.cs[h[2]].url, h[3]>> ELSE h, log |-> t.log, fetch |-> t.sent, fbag |-> TRUE]

-----------------------------------------------------------------------------
\* what F01 promises, on the state
OneInFlight(s) == \A c \in DOMAIN s.cs : s.cs[c].out \in {0, 1} /\ (s.cs[c].out = 1 <=> s.cs[c].job \in {"out", "answered"})
\* a request only if it is forced or needed
Reasons(s) == \A w \in s.why : w[1] \/ w[2]
\* who observes a cache sees its value, and it is being loaded unless it has one
Seen(s) == \A u \in DOMAIN s.sb : s.sb[u].live =>
              /\ s.sb[u].last = Shown(s.cs[s.sb[u].c].val)
              /\ s.cs[s.sb[u].c].val \in {Uninit, <<"L">>} => s.cs[s.sb[u].c].job # "no"
\* jobs never get stuck
Alive(s) == \A c \in DOMAIN s.cs : s.cs[c].job \in {"queued", "answered"} => \E i \in DOMAIN s.ts : s.ts[i].id = c
Expiry(s) == \A c \in DOMAIN s.cs : s.cs[c].exp = -1 \/ (s.cs[c].ttl # -1 /\ s.cs[c].exp <= s.now + 1000 * s.cs[c].ttl)
Good1(s) == OneInFlight(s) /\ Reasons(s) /\ Seen(s) /\ Alive(s) /\ Expiry(s) /\ s.dirty = {}
=============================================================================
