---------------------------- MODULE CookiesGen -----------------------------
EXTENDS Cookies, Json
CONSTANTS Steps
VARIABLES S, hist, ndone
vars == <<S, hist, ndone>>
Pick(x) == RandomElement(x)
Init == S = InitState /\ hist = <<>> /\ ndone = 0
Name(n) == IF Pick(1..3) = 1 THEN Pick(Names) ELSE Pick({"a", "ab", "b"})
Ttl(n) == Pick({0, 1, 2, 3, 60, 400000000})
ROp(n) ==
    LET r == Pick(1..100) IN
    IF r <= 22 THEN <<"cset", Name(n), Pick(DOMAIN Texts), Ttl(n)>>
    ELSE IF r <= 44 THEN <<"csetj", Name(n), Pick(Jsons), Ttl(n)>>
    ELSE IF r <= 70 THEN <<"cget", Name(n)>>
    ELSE IF r <= 96 THEN <<"cgetj", Name(n)>>
    ELSE <<"hreplace", Pick({"/", "/shop/item", "/shop/", "/other/deep/page?q#f"})>>
RHost(n) ==
    LET r == Pick(1..100) IN
    IF r <= 55 THEN <<"app", ROp(n)>>
    ELSE IF r <= 70 THEN <<"app", <<"tx", TLCEval([i \in 1..Pick(2..4) |-> ROp(i)])>>>>
    ELSE IF r <= 82 THEN <<"wait", Pick({1, 1, 2, 59})>>
    ELSE IF r <= 97 THEN <<"foreign", Name(n), Pick(DOMAIN Raws), Pick({-1, -1, 0, 1, 5})>>
    ELSE <<"foreign", "", Pick({"nameless", "%"}), -1>>
Step ==
    /\ ndone < Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T))
    /\ ndone' = ndone + 1
\* at the end every name is read in both ways
RECURSIVE Q(_)
Q(ns) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE x \in ns : TRUE IN <<<<"cget", n>>, <<"cgetj", n>>>> \o Q(ns \ {n})
Finish ==
    /\ ndone = Steps
    /\ \E h \in {<<"app", <<"tx", Q(Names)>>>>} : \E T \in {Apply(S, h)} :
          /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], url |-> Pick({"http://localhost:1111/", "http://localhost:1111/shop/item"}), steps |-> Append(hist, Record(h, T))]))
          /\ S' = T
    /\ ndone' = Steps + 1 /\ UNCHANGED hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S)
=============================================================================
