----------------------------- MODULE RouterGen -----------------------------
EXTENDS Router, Json
CONSTANTS Steps, Routers
VARIABLES S, hist, start, show, url, ndone
vars == <<S, hist, start, show, url, ndone>>
Pick(x) == RandomElement(x)
Addr == { [t |-> "/", p |-> "/", q |-> "", h |-> ""], [t |-> "/x", p |-> "/x", q |-> "", h |-> ""], [t |-> "/x y", p |-> "/x%20y", q |-> "", h |-> ""],
          [t |-> "/~Z~", p |-> "/%C5%BC", q |-> "", h |-> ""], [t |-> "/x?q=1", p |-> "/x", q |-> "?q=1", h |-> ""], [t |-> "/x#f", p |-> "/x", q |-> "", h |-> "#f"],
          [t |-> "/x?q=1#f g", p |-> "/x", q |-> "?q=1", h |-> "#f%20g"], [t |-> "/v/../x", p |-> "/x", q |-> "", h |-> ""], [t |-> "?q=2", p |-> "", q |-> "?q=2", h |-> ""],
          [t |-> "/a:b?t=1:2", p |-> "/a:b", q |-> "?t=1:2", h |-> ""], [t |-> "/http:c", p |-> "/http:c", q |-> "", h |-> ""],
          [t |-> "#g", p |-> "", q |-> "", h |-> "#g"], [t |-> "", p |-> "", q |-> "", h |-> ""], [t |-> "y", p |-> "/y", q |-> "", h |-> ""] }
Atoms == {"x", "y", " ", "~Z~", "%", "/", "?c=1", "%20"}
RText(n) == IF S.k = "history" THEN Pick(Addr)
            ELSE LET k == Pick({0, 1, 1, 2, 3}) IN TLCEval([i \in 1..k |-> Pick(Atoms)])
\* addresses which are not of this application
Out == <<"http://other.example/x", "https://other.example/", "//other.example/y", "mailto:someone@other.example", "tel:123", "HTTPS://other.example/z">>
OutLinks == [i \in DOMAIN Out |-> [k |-> "link", href |-> Out[i]]]
Links(k) == OutLinks \o IF k = "hash" THEN <<[k |-> "link", href |-> "#x"], [k |-> "link", href |-> "#x y"], [k |-> "link", href |-> "#%"]>>
            ELSE <<[k |-> "link", href |-> "/x"], [k |-> "link", href |-> "/x y"], [k |-> "link", href |-> "?q=2"], [k |-> "link", href |-> "#g"], [k |-> "link", href |-> "/a:b?t=1:2"]>>
LinkText(k) == IF k = "hash" THEN {<<"x">>, <<"x", " ", "y">>, <<"%">>} ELSE {a \in Addr : a.t \in {"/x", "/x y", "?q=2", "#g", "/a:b?t=1:2"}}

\* TLC computes the initial states of a simulation once: what is random is chosen by the first step
Init == S = <<>> /\ hist = <<>> /\ start = <<>> /\ show = <<>> /\ url = "" /\ ndone = 0
Begin ==
    /\ S = <<>>
    /\ \E k \in {IF Pick({ndone = 0, FALSE}) THEN "hash" ELSE "history"} :
       \E l \in {IF k = "hash" THEN [p |-> "/", q |-> "", h |-> Pick({<<>>, <<"x">>, <<"x", "%20", "y">>, <<"%">>})] ELSE Pick({[p |-> "/", q |-> "", h |-> ""], [p |-> "/x", q |-> "?q=1", h |-> "#f"]})} :
       \E st \in {[i \in 1..Routers |-> <<"router", i, k>>]} :
       \E sh \in {Pick({ndone = 0, FALSE})} :
       \E T \in {Ops(InitState(k, l), st)} :
          /\ start' = st
          /\ show' = Links(k) \o (IF sh THEN <<[k |-> "route", r |-> 1]>> ELSE <<>>)
          /\ S' = [T EXCEPT !.rt[1].shown = sh, !.rt[1].on = sh]
          /\ url' = "http://localhost:1111" \o Written(S')
    /\ UNCHANGED <<hist, ndone>>

R(n) == Pick(1..Routers)
ROp(n) ==
    LET r == Pick(1..100) IN
    IF r <= 45 THEN <<"rset", R(n), RText(n)>>
    ELSE IF r <= 58 THEN <<"rtset", R(n), RText(n)>>
    ELSE IF r <= 66 /\ S.tasks = <<>> THEN <<"rchange", R(n), "z">>
    ELSE IF r <= 88 \/ S.k = "hash" THEN <<"rget", R(n)>>
    ELSE <<"hreplace", RText(n)>>
Live == {u \in DOMAIN S.sb : S.sb[u].live}
RHost(n) ==
    LET r == Pick(1..100) IN
    IF r <= 26 THEN <<"app", ROp(n)>>
    ELSE IF r <= 34 THEN <<"app", <<"tx", TLCEval([i \in 1..Pick(2..4) |-> ROp(i)])>>>>
    ELSE IF r <= 44 THEN <<"app", IF Pick(1..2) = 1 THEN <<"rsub", n, R(n), "map">> ELSE <<"rsub", n, R(n)>>>>
    ELSE IF r <= 54 /\ Live # {} THEN <<"app", <<"unsub", Pick({u \in DOMAIN S.sb : S.sb[u].live})>>>>
    ELSE IF r <= 58 THEN <<"app", <<"back">>>>
    ELSE IF r <= 68 THEN <<"go", Pick({-1, -1, 1, -2, 2})>>
    ELSE IF r <= 76 THEN <<"hash", IF S.k = "hash" THEN Raw(RText(n)) ELSE Pick({"#f", "#g", ""})>>
    ELSE IF r <= 86 THEN <<"click", Pick(LinkText(S.k))>>
    ELSE IF r <= 89 THEN <<"out", Out[Pick(DOMAIN Out)]>>
    ELSE IF S.tasks # <<>> /\ Pick(1..2) = 1 THEN <<"task">> ELSE <<"drain">>
Step ==
    /\ S # <<>> /\ ndone < Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(S, h, T, show))
    /\ ndone' = ndone + 1 /\ UNCHANGED <<start, show, url>>
Finish ==
    /\ ndone = Steps
    /\ \E T \in {Apply(S, <<"drain">>)} : \E hs \in {Append(hist, Record(S, <<"drain">>, T, show))} :
          /\ PrintT("@@" \o ToJson([net |-> [init |-> start, show |-> show], url |-> url, steps |-> hs]))
          /\ S' = T
    /\ ndone' = Steps + 1 /\ UNCHANGED <<hist, start, show, url>>
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == S # <<>> => Good1(S)
=============================================================================
