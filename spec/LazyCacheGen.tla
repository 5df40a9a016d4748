---------------------------- MODULE LazyCacheGen ----------------------------
EXTENDS LazyCache, Json
CONSTANTS Steps, Caches
VARIABLES S, hist, start, ndone, both
vars == <<S, hist, start, ndone, both>>
Pick(x) == RandomElement(x)
Ttl(i) == Pick({-1, 0, 1, 1, 2, 10})
Made(i) == IF Pick(1..5) = 1 THEN <<"resource", i, "/r" \o ToString(i), Pick({0, 1, 3})>> 
           ELSE IF Pick(1..4) = 1 THEN <<"cache", i, <<<<"get", "http://api/c" \o ToString(i)>>, <<Pick({"ttl", "ttlm", "ttlh", "ttld"}), 1>>>>, -1>>
           ELSE <<"cache", i, <<<<"get", "http://api/c" \o ToString(i)>>>>, Ttl(i)>>
\* TLC computes the initial states of a simulation once: what is random is chosen by the first step
Init == start = <<>> /\ S = <<>> /\ hist = <<>> /\ ndone = 0 /\ both = FALSE
Begin ==
    /\ start = <<>>
    /\ \E st \in {TLCEval([i \in 1..Caches |-> Made(i + ndone)])} : start' = st /\ S' = Ops(InitState, st)
    /\ UNCHANGED <<hist, ndone, both>>
\* both: several jobs were started by one step, in an order which is not promised; then they run together
C(n) == Pick(1..Caches)
ROp(n) ==
    LET r == Pick(1..100) IN
    IF r <= 50 THEN <<"read", C(n)>> ELSE IF r <= 70 THEN <<"force", C(n), Pick({TRUE, FALSE})>> ELSE IF r <= 92 THEN <<"forget", C(n)>> ELSE <<"update", C(n)>>
RAnswer(n) == [status |-> Pick({200, 200, 200, 200, 404, 500, 0}), type |-> Pick({"application/json", "application/json", "application/json", "text/plain"}),
               body |-> IF Pick(1..8) = 1 THEN 0 ELSE Pick(1..3)]
RHost(n) ==
    LET r == Pick(1..100) live == {u \in DOMAIN S.sb : S.sb[u].live} IN
    IF r <= 22 THEN <<"app", ROp(n)>>
    ELSE IF r <= 30 THEN <<"app", <<"tx", TLCEval([i \in 1..Pick(2..4) |-> ROp(i)])>>>>
    ELSE IF r <= 42 THEN <<"app", <<"csub", n, C(n), Pick({"own", "view", "view"})>>>>
    ELSE IF r <= 48 /\ live # {} THEN <<"app", <<"unsub", Pick(live)>>>>
    ELSE IF r <= 68 /\ Pending(S) # {} THEN <<"answer", Pick(Pending(S)), RAnswer(n)>>
    ELSE IF r <= 86 THEN (IF both THEN <<"wait", 0>> ELSE <<"timer">>) ELSE <<"wait", Pick({0, 1, 1, 500, 1000, 1001, 2000, 2500, 10001, 59999, 60001, 3599999, 3600001, 86399999, 86400001})>>
Step ==
    /\ start # <<>> /\ ndone < Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(S, h, T))
          /\ both' = IF T.ts = <<>> THEN FALSE ELSE (both \/ Len(T.ts) > Len(S.ts) + 1 \/ (h[1] = "timer" /\ Len(T.ts) > Len(S.ts)))
    /\ ndone' = ndone + 1 /\ UNCHANGED start
Left(s) == s.ts # <<>> \/ Pending(s) # {}
Finish ==
    /\ ndone >= Steps /\ ndone < 1000 /\ Left(S)
    /\ \E h \in {IF S.ts # <<>> THEN <<"wait", 0>> ELSE <<"answer", Pick(Pending(S)), RAnswer(ndone)>>} :
       \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(S, h, T))
    /\ ndone' = ndone + 1 /\ UNCHANGED <<start, both>>
Emit ==
    /\ ndone >= Steps /\ ndone < 1000 /\ ~Left(S)
    /\ PrintT("@@" \o ToJson([net |-> [init |-> start, show |-> <<>>], steps |-> hist]))
    /\ ndone' = 1000 /\ UNCHANGED <<S, hist, start, both>>
Next == Begin \/ Step \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
Good == start # <<>> => Good1(S)
=============================================================================
