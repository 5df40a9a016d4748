------------------------------ MODULE FetchGen ------------------------------
EXTENDS Fetch, Json
CONSTANTS Steps
VARIABLES S, hist, nid, ndone
vars == <<S, hist, nid, ndone>>

Pick(x) == RandomElement(x)
Init == S = InitState /\ hist = <<>> /\ nid = 1 /\ ndone = 0

Urls == {"http://api/a", "http://api/a", "/rel;x=1&y=~U~", "rel/x", "http://api/sp%20ace?q=~Q~&"}
Values == {"v", "v w, x;y=1", "~E~", "*/*"}
RHeader(n) ==
    LET name == Pick({"X-A", "X-A", "Accept", "Content-Type", "content-type", "Authorization"}) IN
    <<"header", name, IF Pick(1..25) = 1 THEN Pick({"~U~", "~N~"}) ELSE IF name \in {"Content-Type", "content-type"} THEN Pick({"text/csv", "application/json", "x/y; z"}) ELSE Pick(Values)>>
RBody(n) ==
    LET r == Pick(1..100) IN
    IF r <= 35 THEN <<"json", "%j:" \o Pick(JsonBodies \ {"j3"})>>
    ELSE IF r <= 45 THEN <<"vec", TLCEval([i \in 1..Pick(0..3) |-> Pick({0, 1, -1, 255, 65536, 2147483647, -2147483647})])>>
    ELSE IF r <= 75 THEN <<"text", "%t:" \o Pick(AllBodies \ ByteBodies)>>
    ELSE <<"bin", "%x:" \o Pick(AllBodies)>>
RStart(n) ==
    LET r == Pick(1..100) url == Pick(Urls) \o "?id=" \o ToString(n) IN
    IF r <= 10 THEN <<"get", url>> ELSE IF r <= 30 THEN <<"post", url>> ELSE IF r <= 35 THEN <<"dget", url>>
    ELSE IF r <= 40 THEN <<"dpost", url>> ELSE IF r <= 42 THEN <<"new", Pick(Methods), "http://">>
    ELSE IF r <= 70 THEN <<"new", Pick({"PUT", "PATCH", "DELETE", "OPTIONS", "POST"}), url>> ELSE <<"new", Pick(Methods), url>>
RRequest(n) ==
    LET k == Pick({0, 1, 1, 2, 3}) start == RStart(n)
        mayHave == start[1] \in {"post", "dpost"} \/ (start[1] = "new" /\ start[2] \notin {"GET", "HEAD"}) IN
    TLCEval(<<start>> \o [i \in 1..k |->
        LET r == Pick(1..100) IN
        IF r <= 45 THEN RHeader(i) ELSE IF r <= 50 THEN <<"bearer", "tok">>
        ELSE IF r <= 55 THEN <<"headers", <<<<"X-A", "v2">>, <<"Accept", "a">>>>>>
        ELSE IF r <= 60 THEN <<"ttl", 5>>
        ELSE IF mayHave \/ r <= 64 THEN RBody(i) ELSE RHeader(i)])
\* one spelling of each header name per request: which one of two wins is not promised
OneSpelling(q) == LET h == DOMAIN Built(q).h IN ~("Content-Type" \in h /\ "content-type" \in h)
RECURSIVE Proper(_)
Proper(n) == LET q == RRequest(n) IN IF OneSpelling(q) THEN q ELSE Proper(n)
RECURSIVE RFetch(_, _)
RFetch(n, depth) == <<"fetch", n, Proper(n), IF depth = 0 \/ Pick(1..3) # 1 THEN <<>>
                      ELSE TLCEval([i \in 1..Pick(1..2) |-> IF Pick(1..4) = 1 THEN <<"log", 100 * n + i>> ELSE RFetch(100 * n + i, depth - 1)])>>
RResponse(n) ==
    LET r == Pick(1..100) IN
    IF r <= 12 THEN [status |-> 0, type |-> "none", body |-> "t3"]
    ELSE LET type == Pick(IF r <= 45 THEN JsonTypes ELSE IF r <= 70 THEN TextTypes ELSE OtherTypes) IN
         [status |-> Pick({200, 200, 200, 201, 204, 304, 400, 404, 500, 599}), type |-> type,
          body |-> IF Pick(1..12) = 1 THEN "cut" ELSE IF type \in JsonTypes /\ Pick(1..5) # 1 THEN Pick(JsonBodies) ELSE Pick(AllBodies)]
RHost(n) ==
    LET r == Pick(1..100) IN
    IF r <= 30 THEN <<"app", RFetch(n, 2)>>
    ELSE IF r <= 62 /\ Out(S) # {} THEN LET a == RResponse(n) m == Pick(Out(S)) - 1 IN
                                        IF Pick(1..4) = 1 /\ a.status # 0 /\ a.status \notin NoBody THEN <<"head", m, a>> ELSE <<"respond", m, a>>
    ELSE IF r <= 70 /\ Half(S) # {} THEN <<"body", Pick(Half(S)) - 1>>
    ELSE IF r <= 90 THEN <<"timer">> ELSE <<"wait", Pick({0, 5})>>

Step ==
    /\ ndone < Steps
    /\ \E h \in {RHost(nid + 0 * ndone)} : \E T \in {Apply(S, h)} :
          S' = T /\ hist' = Append(hist, Record(S, h, T))
    /\ nid' = nid + 1 /\ ndone' = ndone + 1
Left(s) == s.ts # <<>> \/ Out(s) # {} \/ Half(s) # {}
\* whatever is still open is answered
Finish ==
    /\ ndone >= Steps /\ ndone < 1000 /\ Left(S)
    /\ \E h \in {IF S.ts # <<>> THEN <<"wait", 0>> ELSE IF Half(S) # {} THEN <<"body", Pick(Half(S)) - 1>> ELSE <<"respond", Pick(Out(S)) - 1, RResponse(ndone)>>} :
       \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(S, h, T))
    /\ ndone' = ndone + 1 /\ UNCHANGED nid
Emit ==
    /\ ndone >= Steps /\ ndone < 1000 /\ ~Left(S)
    /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], steps |-> hist]))
    /\ ndone' = 1000 /\ UNCHANGED <<S, hist, nid>>
Next == Step \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
Good == Good2(S) /\ (ndone = 1000 => \A id \in DOMAIN S.rq : S.rq[id].ph = "done")
=============================================================================
