---------------------------- MODULE AutoMapGen -----------------------------
EXTENDS AutoMap, Json
CONSTANTS Steps
VARIABLES S, hist, ndone, ok
vars == <<S, hist, ndone, ok>>
Pick(x) == RandomElement(x)
Init == S = InitState /\ hist = <<>> /\ ndone = 0 /\ ok = TRUE
Id(n) == Pick({x \in 1..3 : n >= 0})
RDeps(k) == LET q == TLCEval([i \in 1..Pick(0..2 + 0 * k) |-> Pick(0..(k - 1))]) IN IF k = 0 THEN <<>> ELSE q
RPlan(n) == TLCEval([i \in 1..4 |-> RDeps(i - 1)])
RSmall(n) ==
    LET r == Pick(1..100 + 0 * n) IN
    IF r <= 38 THEN <<"amget", Id(n), Pick({k \in Keys : n >= 0})>>
    ELSE IF r = 39 THEN <<"amget", Id(n), Pick(1..300 + 0 * n)>>
    ELSE IF r = 40 THEN LET a == Pick(4..200 + 0 * n) IN <<"ammany", Id(n), a, a + Pick({3, 20, 70, 280})>>
    ELSE IF r <= 70 THEN <<"amset", Id(n), Pick({k \in Keys : n >= 0}), Pick({7, 100, 200, 9})>>
    ELSE <<"set", Id(n), Pick({k \in Keys : n >= 0})>>
Free == {m \in DOMAIN S.maps : \A w \in DOMAIN S.views : S.views[w].n # S.maps[m]}
ROp(n) ==
    LET r == Pick(1..100 + 0 * n) IN
    IF DOMAIN S.maps = {} \/ r <= 8 THEN <<"map", Id(n), Len(S.stores) + 1, RPlan(n)>>
    ELSE IF r <= 16 THEN <<"amclone", Id(n), Id(n)>>
    ELSE IF r <= 18 THEN <<"amforget", Id(n)>>
    ELSE IF r <= 24 THEN <<"ameq", Id(n), Id(n)>>
    ELSE IF r <= 36 /\ Free # {} /\ DOMAIN S.views # 1..3 THEN LET w == Pick({x \in 1..3 : x \notin DOMAIN S.views}) IN <<"amview", w, Pick(Free), Id(n)>>
    ELSE IF r <= 41 /\ DOMAIN S.views # {} THEN <<"amdrop", Pick(DOMAIN S.views)>>
    ELSE IF r <= 56 THEN <<"tx", TLCEval([i \in 1..Pick(2..4 + 0 * n) |-> RSmall(i)])>>
    ELSE RSmall(n)
Step ==
    /\ ndone < Steps
    /\ \E o \in {ROp(ndone)} : \E h \in {<<"app", o>>} : \E T \in {Apply(S, h)} :
         S' = T /\ hist' = Append(hist, Record(h, T)) /\ ok' = (ok /\ Kept(S, T))
    /\ ndone' = ndone + 1
Finish ==
    /\ ndone = Steps
    /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], url |-> "http://localhost:1111/", steps |-> hist]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<S, hist, ok>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S) /\ ok
=============================================================================
