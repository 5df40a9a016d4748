----------------------------- MODULE StartupGen -----------------------------
EXTENDS Startup, Json
CONSTANTS Steps, Caches
VARIABLES S, hist, first, ini, late, ssr, ndone
vars == <<S, hist, first, ini, late, ssr, ndone>>
Pick(x) == RandomElement(x)
C(i) == <<"cache", i, <<<<"get", "http://a/" \o ToString(i)>>>>, -1>>
F(i, ops) == <<"fetch", i, <<<<"get", "http://f/" \o ToString(i)>>>>, ops>>

RECURSIVE RShow(_, _)
RShow(n, depth) ==
    LET k == Pick(1..3) IN
    TLCEval([i \in 1..k |-> LET r == Pick(1..100) IN
        IF r <= 20 THEN [k |-> "text", s |-> Pick({"a", "b"})]
        ELSE IF r <= 22 THEN [k |-> "rows", v |-> Pick(1..2)]
        ELSE IF r <= 50 \/ depth = 0 THEN [k |-> "var", v |-> Pick(1..2)]
        ELSE [k |-> "cache", c |-> Pick(1..Caches), in |-> RShow(n, depth - 1)]])
\* at most one thing with caches, then variables
CacheOp(n) == LET r == Pick(1..4) c == Pick(1..Caches) IN
    IF r = 1 THEN <<"force", c, Pick({TRUE, FALSE})>> ELSE IF r = 2 THEN <<"update", c>> ELSE <<"forget", c>>
SetOp(n) == <<"set", Pick(1..2), Pick(0..5)>>
RECURSIVE ROps(_, _)
ROps(n, d) ==
    LET k == Pick({0, 1, 1, 2, 3}) IN
    TLCEval([i \in 1..k |-> IF i = 1 /\ Pick(1..3) = 1 THEN CacheOp(n) ELSE IF d > 0 /\ Pick(1..6) = 1 THEN F(100 * n + i, ROps(100 * n + i, d - 1)) ELSE SetOp(n)])
\* during the start: no forgetting of what is shown already
ROps0(n) == LET k == Pick({0, 0, 1, 2}) IN
    TLCEval([i \in 1..k |-> LET r == Pick(1..10) IN IF r <= 3 THEN <<"force", Pick(1..Caches), Pick({TRUE, FALSE})>> ELSE IF r <= 5 THEN <<"update", Pick(1..Caches)>> ELSE IF r <= 8 THEN F(500000 * n + i, ROps(500000 * n + i, 1)) ELSE SetOp(n)])

Server(b) == IF b THEN "<p>server</p><div></div>" ELSE ""
\* TLC computes the initial states of a simulation once: what is random is chosen by the first step
Init == S = <<>> /\ first = <<>> /\ hist = <<>> /\ ndone = 0 /\ ini = <<>> /\ late = <<>> /\ ssr = FALSE
Begin ==
    /\ S = <<>>
    /\ \E b \in {Pick({ndone = 0, FALSE})} : \E sh \in {RShow(ndone, 2)} :
          \E i1 \in {[i \in 1..Caches |-> C(i)] \o ROps0(ndone + 1)} : \E l1 \in {ROps0(ndone + 2)} :
          \E T \in {Start(InitState(sh, Server(b)), i1, l1)} :
             ini' = i1 /\ late' = l1 /\ ssr' = b /\ S' = T /\ first' = Rec(T, T)
    /\ UNCHANGED <<hist, ndone>>
RAnswer(n) == Pick({[status |-> 200, type |-> "application/json", body |-> 1], [status |-> 200, type |-> "application/json", body |-> 2], [status |-> 200, type |-> "application/json", body |-> n],
                    [status |-> 500, type |-> "application/json", body |-> 3], [status |-> 0, type |-> "none", body |-> 1]})
RHost(n) ==
    LET r == Pick(1..100) IN
    IF r <= 45 /\ CacheOut(S) # {} THEN <<"cache", Pick({c \in DOMAIN S.cs : S.cs[c].job = "out"}), RAnswer(n)>>
    ELSE IF r <= 60 /\ FetchOut(S) # {} THEN <<"fetch", Pick({i \in DOMAIN S.fs : S.fs[i].ph = "out"}), RAnswer(n)>>
    ELSE IF r <= 66 THEN <<"app", F(n + 10, ROps(n + 10, 1))>>
    ELSE IF r <= 76 THEN <<"app", SetOp(n)>>
    ELSE IF r <= 84 THEN <<"app", CacheOp(n)>>
    ELSE IF r <= 96 THEN <<"app", <<"tx", ROps(n + 50, 0)>>>>
    ELSE <<"wait", 0>>
Step ==
    /\ S # <<>> /\ ndone < Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(S, h, T))
    /\ ndone' = ndone + 1 /\ UNCHANGED <<first, ini, late, ssr>>
Finish ==
    /\ ndone = Steps
    /\ PrintT("@@" \o ToJson([net |-> [init |-> ini, show |-> S.show, late |-> late], ssr |-> ssr, start |-> first, steps |-> hist]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<S, hist, first, ini, late, ssr>>
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == S # <<>> => Good1(S)
=============================================================================
