------------------------------- MODULE SsrGen -------------------------------
(* Random pages of one server, random schedules of requests, answers and      *)
(* visitors; every step is written out with what has to be seen.              *)
EXTENDS Ssr, Json
CONSTANTS Pgs, Steps, Profile   \* Profile: "s02" | "s03" | "s04" | "limit" | "over"
VARIABLES pool, progs, S, hist, ndone
vars == <<pool, progs, S, hist, ndone>>

Pick(x) == RandomElement(x)
Chance(p) == Pick(1..100) <= p

\* the requests of a scenario: some of them nearly equal
RHeaders(n) == LET k == Pick({0, 0, 1, 2, 3}) q == <<<<"X-A", Pick({"v", "v w, x;y=1"})>>, <<"Accept", Pick({"x/y", "a/b"})>>, <<"Authorization", "Bearer t">>>> IN
               (IF Chance(25 + 0 * n) THEN <<<<Pick({"Content-Type", "content-type"}), Pick({"text/csv", "x/y; z", "application/vnd.a+json", "text/plain"})>>>> ELSE <<>>) \o SubSeq(q, 1, k)
RReq(n) ==
    LET m == Pick({"GET", "GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD"})
        b == IF m \in {"GET", "HEAD", "OPTIONS"} \/ Chance(20) THEN <<>>
             ELSE <<Pick({<<"json", "%j:" \o Pick(F!JsonBodies \ {"j3"})>>, <<"text", "%t:" \o Pick({"t1", "t2", "t3", "j1", "j4"})>>, <<"vec", <<1, -5>>>>, <<"bin", "%x:" \o Pick({"x1", "x2", "t1", "j2"})>>})>> IN
    [m |-> m, u |-> "%S/" \o Pick({"a", "b?x=1&y=%20", "b?x=2"}), h |-> RHeaders(n), b |-> b]
Near(r, n) ==
    LET k == Pick(1..4) IN
    CASE k = 1 -> [r EXCEPT !.h = Append(SelectSeq(@, LAMBDA x : x[1] # "X-A"), <<"X-A", "other">>)]
      [] k = 2 -> [r EXCEPT !.u = @ \o (IF Pick(1..2) = 1 THEN "?" ELSE "/")]
      [] k = 3 -> IF r.b = <<>> \/ r.b[1][1] # "text" THEN [r EXCEPT !.h = Append(SelectSeq(@, LAMBDA x : x[1] # "Authorization"), <<"Authorization", "q">>)] ELSE [r EXCEPT !.b = <<<<"text", "%t:x3">>>>]
      [] k = 4 -> IF r.b = <<>> THEN [r EXCEPT !.m = IF @ = "GET" THEN "DELETE" ELSE "GET"] ELSE [r EXCEPT !.m = IF @ = "PUT" THEN "POST" ELSE "PUT"]
RPool(n) == LET a == RReq(1) b == RReq(2) IN TLCEval(<<a, b, Near(a, 1), IF Chance(50) THEN Near(b, 2) ELSE RReq(3)>>)

\* a spelling of a request
Spell(r, n) ==
    LET k == Pick(1..3)
        start == IF r.m = "GET" /\ Chance(60) THEN <<"get", r.u>> ELSE IF r.m = "POST" /\ Chance(60) THEN <<"post", r.u>> ELSE <<"new", r.m, r.u>>
        hs == [i \in DOMAIN r.h |-> LET x == r.h[IF k = 1 THEN i ELSE Len(r.h) + 1 - i] IN <<"header", x[1], x[2]>>]
        hm == IF k = 3 /\ r.h # <<>> THEN <<<<"headers", r.h>>>> ELSE hs IN
    TLCEval(<<start>> \o (IF Chance(50) THEN r.b \o hm ELSE hm \o r.b) \o (IF Chance(20) THEN <<<<"ttl", 5>>>> ELSE <<>>))
Use(n) == Spell(pool[IF Profile = "s03" THEN Pick({1, 1, 2, 3}) ELSE Pick(1..4)], n)

Texts == {"x", "~Q~", "~U~", "", "~Z~ </p><script>", "<!-- ~N~"}
RECURSIVE ROp(_, _), ROps(_, _, _)
Still(c) ==
    LET r == Pick(1..IF Profile = "over" THEN 7 ELSE 12 + 0 * c) IN
    CASE r = 1 -> <<"env", c, Pick({"A", "B", "LONG_name.x", "missing", IF Profile = "over" THEN "none" ELSE "a"})>> [] r = 2 -> <<"random", c, Pick({0, 7, 2147483600}), 2147483640>>
      [] r = 3 -> <<"zone", c>> [] r = 4 -> <<"browser", c>> [] r = 5 -> <<"starts", c>> [] r = 6 -> <<"route", c>> [] r = 7 -> <<"time", c>>
      [] r = 8 -> <<"later", Pick({1, 50, 100000}), c>> [] r = 9 -> <<"interval", Pick({0, 1, 20}), c>> [] r = 10 -> <<"socket", "ws://up/x", c>>
      [] r = 11 -> <<"cookie", "v">> [] r = 12 -> <<Pick({"push", "back"}), "/elsewhere">>
Perilous(z) == IF Profile = "s04" THEN 14 ELSE IF Profile = "s03" THEN 5 ELSE 0
ROp(c, d) ==
    LET r == Pick(1..100) IN
    IF Chance(Perilous(d)) THEN <<"panic", Pick({"oops", "~U~"})>>
    ELSE IF d = 0 \/ r <= 14 THEN <<"set", c, Pick(Texts)>>
    ELSE IF r <= 28 THEN Still(c)
    ELSE IF r <= 36 THEN <<"spawn", ROps(c, d - 1, Pick(1..2))>>
    ELSE IF r <= 42 THEN <<"nap", Pick(0..3), ROps(c, d - 1, Pick(1..2))>>
    ELSE IF r <= 58 THEN <<"cache", c, Use(c), <<>>>>
    ELSE <<"fetch", c, Use(c), ROps(c, d - 1, Pick(0..2))>>
ROps(c, d, n) == TLCEval([i \in 1..n |-> ROp(c * 10 + i, d)])
RProg(n) ==
    LET p == IF Profile = "s04" THEN Pick({"none", "none", "none", "~U~", "<html>~Q~", "", "~N~"}) ELSE IF Profile = "s03" /\ Chance(8) THEN "plain ~U~" ELSE "none"
        r == IF Profile \in {"s03", "s04"} /\ Chance(12) THEN Pick({"nobody", "div"}) ELSE "html" IN
    [ops |-> ROps(n, IF Profile \in {"s02", "over"} THEN 3 ELSE 2, Pick(1..4)), plain |-> p, root |-> r]

RAnswer(key) ==
    LET r == Pick(1..100) IN
    IF r <= 10 THEN [status |-> 0, type |-> "none", body |-> "t3"]
    ELSE IF key.m = "HEAD" THEN [status |-> 200, type |-> "none", body |-> "t3"]
    ELSE LET type == Pick(IF r <= 55 THEN F!JsonTypes ELSE IF r <= 75 THEN F!TextTypes ELSE F!OtherTypes) IN
         [status |-> Pick({200, 200, 200, 200, 201, 204, 304, 400, 404, 500, 599}), type |-> type,
          body |-> IF Pick(1..12) = 1 THEN "cut" ELSE IF type \in F!JsonTypes /\ Pick(1..6) # 1 THEN Pick(F!JsonBodies)
                   ELSE IF type \in F!TextTypes THEN Pick(F!AllBodies \ {"x1", "x2"}) ELSE Pick(F!AllBodies)]

Init == pool = <<>> /\ progs = <<>> /\ S = <<>> /\ hist = <<>> /\ ndone = 0
Setup == pool = <<>> /\ pool' = RPool(Len(hist)) /\ UNCHANGED <<progs, S, hist, ndone>>
Write ==
    /\ pool # <<>> /\ Len(progs) < Pgs
    /\ progs' = Append(progs, IF progs # <<>> /\ Profile = "s03" /\ Chance(35) THEN progs[Pick(DOMAIN progs)] ELSE RProg(Len(progs) + 1))
    /\ S' = Append(S, NoPage)
    /\ UNCHANGED <<pool, hist, ndone>>
Ready == Len(progs) = Pgs

Fresh == {p \in DOMAIN S : ~S[p].on}
Live == {p \in DOMAIN S : S[p].on /\ S[p].s.out = <<>>}
\* what is seen after a step of page p
Seen(h, T) ==
    LET t == T[h[2]].s IN
    [do |-> h, sent |-> t.sent, out |-> t.out, taken |-> IF t.out # <<>> /\ t.out[1] = "html" THEN Taken(t.out[2]) ELSE <<>>]
RHost(n) ==
    LET r == Pick(1..100) IN
    IF Fresh # {} /\ (Live = {} \/ r <= 35 \/ Profile = "limit") THEN <<"open", Pick(Fresh)>>
    ELSE IF r <= 42 /\ Profile = "s03" THEN <<"leave", Pick(Live)>>
    ELSE LET p == Pick(Live) k == Pick(Open(S[p].s)) IN <<"answer", p, k, RAnswer(k)>>
Step ==
    /\ Ready /\ ndone < Steps
    /\ (Fresh # {} \/ Live # {})
    /\ \E h \in {RHost(0 * ndone)} : \E T \in {Apply(S, progs, h)} : S' = T /\ hist' = Append(hist, Seen(h, T))
    /\ ndone' = ndone + 1
    /\ UNCHANGED <<pool, progs>>
\* what is still open: answered, or cut off
Finish ==
    /\ Ready /\ ndone < 1000 /\ (Fresh # {} \/ Live # {}) /\ ndone >= Steps
    /\ \E h \in {IF Fresh # {} THEN <<"open", Pick(Fresh)>>
                 ELSE IF Profile = "limit" THEN <<"limit", Pick(Live)>>
                 ELSE LET p == Pick(Live) k == Pick(Open(S[p].s)) IN <<"answer", p, k, RAnswer(k)>>} :
       \E T \in {Apply(S, progs, h)} : S' = T /\ hist' = Append(hist, Seen(h, T))
    /\ ndone' = ndone + 1 /\ UNCHANGED <<pool, progs>>
Emit ==
    /\ Ready /\ Fresh = {} /\ Live = {} /\ ndone < 1000
    /\ PrintT("@@" \o ToJson([progs |-> progs, steps |-> hist]))
    /\ ndone' = 1000 /\ UNCHANGED <<pool, progs, S, hist>>
Next == Setup \/ Write \/ Step \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
Good ==
    /\ \A p \in DOMAIN S : Once(S[p].s) /\ (Profile # "limit" => Complete(S[p].s))
    /\ (hist # <<>> /\ hist[Len(hist)].do[1] = "answer" => AnswersAgree({hist[Len(hist)].do[4]}))
    /\ (ndone = 1000 => \A p \in DOMAIN S : S[p].s.out # <<>>)
=============================================================================
