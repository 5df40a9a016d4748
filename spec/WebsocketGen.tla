---------------------------- MODULE WebsocketGen ----------------------------
EXTENDS Websocket, Json
CONSTANTS Steps
VARIABLES S, hist, ndone
vars == <<S, hist, ndone>>
Pick(x) == RandomElement(x)
Init == S = InitState /\ hist = <<>> /\ ndone = 0

K(n) == IF DOMAIN S.h = {} THEN 1 ELSE Pick(DOMAIN S.h)
Msg(n) == Pick({"", "a", "b c", "~Z~", "{\"x\":1}", "true"})
\* names are taken from a counter
Host(k) == "ws://h/" \o ToString(k)
ROp(n, i) ==
    LET r == Pick(1..100) IN
    IF r <= 45 THEN <<"wssend", K(n), Msg(n)>>
    ELSE IF r <= 60 THEN <<"log", n>>
    ELSE IF r <= 75 THEN <<"wsdrop", K(n)>>
    ELSE <<"wssend", Pick(DOMAIN S.h \cup {n}), Msg(n)>>
ROps(n) == LET k == Pick({0, 0, 1, 1, 2}) IN TLCEval([i \in 1..k |-> ROp(n, i)])
Live == {k \in DOMAIN S.h : S.h[k].st # "gone"}
\* the next thing which is due, give or take a millisecond, or something in between
ToNext(n) == LET W == {k \in DOMAIN S.h : S.h[k].st \in {"conn", "retry"}} IN
             IF W = {} THEN Pick({0, 1, 1000, 3000})
             ELSE LET k == Pick(W) d == S.h[k].at - S.now IN Pick({d, d, d, IF d > 0 THEN d - 1 ELSE 0, d + 1, 1000, 0, d + 3000, d + 8000})
RHost(n) ==
    LET r == Pick(1..100) k == K(n) IN
    IF (r <= 12 /\ Cardinality({x \in DOMAIN S.h : S.h[x].st # "gone"}) < 4) \/ DOMAIN S.h = {} THEN <<"app", <<"ws", n, Host(n), ROps(n), ROps(n)>>>>
    ELSE IF r <= 20 THEN <<"app", <<"wssend", k, Msg(n)>>>>
    ELSE IF r <= 26 THEN <<"app", <<"wsdrop", k>>>>
    ELSE IF r <= 30 THEN <<"app", <<"tx", ROps(n)>>>>
    ELSE IF r <= 55 THEN <<"wait", ToNext(n)>>
    ELSE LET e == IF S.h[k].st = "conn" THEN Pick({"open", "open", "open", "close", "error"}) ELSE Pick({"msg", "msg", "msg", "msg", "close", "error"}) IN
         IF Can(S, <<"sock", k, e>>) THEN <<"sock", k, e, Msg(n)>> ELSE <<"wait", ToNext(n)>>
Step ==
    /\ ndone < Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T))
    /\ ndone' = ndone + 1
Finish ==
    /\ ndone = Steps
    /\ \E T \in {Apply(S, <<"wait", 20000>>)} : \E hs \in {Append(hist, Record(<<"wait", 20000>>, T))} :
          /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], steps |-> hs]))
          /\ S' = T /\ hist' = hs
    /\ ndone' = Steps + 1
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S, hist)
=============================================================================
