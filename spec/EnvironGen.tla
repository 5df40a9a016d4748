---------------------------- MODULE EnvironGen -----------------------------
EXTENDS Environ, Json
CONSTANTS Steps
VARIABLES S, hist, ndone, ok
vars == <<S, hist, ndone, ok>>
Pick(x) == RandomElement(x)
VNames == {"A", "LONG_name.x", "n1", "x-y"}
VTexts == {"", "v", "~U~", "~Q~", "a b", "<&\"'>", "0", "~Z~", "~N~"}
Init == S = InitState(<<>>) /\ hist = <<>> /\ ndone = 0 /\ ok = TRUE
Id(n) == Pick(1..3)
Msgs == {"m", "", "~U~ ~Q~", "two~N~lines", "100%s %c", "{\"a\":1}"}
ROp(n) ==
    LET r == Pick(1..100) IN
    IF r <= 12 THEN <<"iset", Id(n)>>
    ELSE IF r <= 17 THEN <<"irefresh", Id(n), Id(n)>>
    ELSE IF r <= 30 THEN <<"iadd", Id(n), Id(n), Pick({0, 999, 1000, 1001, 1999, 5000, 999999, 1000000, 60000000, 86400000})>>
    ELSE IF r <= 56 THEN <<"iread", Id(n)>>
    ELSE IF r <= 60 THEN <<"ieq", Id(n), Id(n)>>
    ELSE IF r <= 66 THEN <<"utc">>
    ELSE IF r <= 72 THEN <<"tz">>
    ELSE IF r <= 81 THEN <<"env", Pick(VNames \cup {"missing", "none"})>>
    ELSE IF r <= 83 THEN <<"side">>
    ELSE IF r <= 87 THEN Rand(Pick(DOMAIN Ranges))
    ELSE IF r <= 89 THEN <<"choose", Pick({0, 1, 2, 5})>>
    ELSE <<"say", Pick({"trace", "debug", "info", "warn", "error"}), Pick(Msgs)>>
RHost(n) ==
    LET r == Pick(1..100) IN
    IF r <= 52 THEN <<"app", ROp(n)>>
    ELSE IF r <= 68 THEN <<"app", <<"tx", TLCEval([i \in 1..Pick(2..4) |-> ROp(i)])>>>>
    ELSE IF r <= 84 THEN <<"wait", Pick({1, 1, 2, 998, 999, 1000, 1001, 59000})>>
    ELSE IF r <= 92 THEN <<"clock", Pick({-1, 1, -1000, -60000, 3600000, 5})>>
    ELSE <<"zone", Pick({0, -60, 300, -330, 570, -840, 720, -345})>>
Begin ==
    /\ ndone = 0
    /\ \E ns \in {{x \in VNames : Pick(1..3 + 0 * ndone) > 1}} : S' = InitState(TLCEval([x \in ns |-> Pick(VTexts)]))
    /\ ndone' = 1 /\ UNCHANGED <<hist, ok>>
Step ==
    /\ ndone >= 1 /\ ndone <= Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T)) /\ ok' = (ok /\ Forward(S, T, h))
    /\ ndone' = ndone + 1
Finish ==
    /\ ndone = Steps + 1
    /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], env |-> [x \in DOMAIN S.vars \cup {"ZZ"} |-> IF x = "ZZ" THEN "zz" ELSE S.vars[x]], url |-> "http://localhost:1111/", steps |-> hist]))
    /\ ndone' = Steps + 2 /\ UNCHANGED <<S, hist, ok>>
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S) /\ ok
=============================================================================
