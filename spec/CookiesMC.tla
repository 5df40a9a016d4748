----------------------------- MODULE CookiesMC ------------------------------
(* Every text and every JSON, set and read in both ways with another cookie     *)
(* around; and all histories of Depth steps over few values.                    *)
EXTENDS Cookies, Json
CONSTANTS Depth
VARIABLES S, hist, done
vars == <<S, hist, done>>
Init == S = InitState /\ hist = <<>> /\ done = FALSE
RECURSIVE Q(_)
Q(ns) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE x \in ns : TRUE IN <<<<"cget", n>>, <<"cgetj", n>>>> \o Q(ns \ {n})
Emit(hs) == PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], url |-> "http://localhost:1111/shop/item", steps |-> hs]))
Reads == <<"app", <<"tx", Q({"a", "ab"})>>>>
Then(s, hs, h) == LET T == Apply(s, h) IN [s |-> T, hs |-> Append(hs, Record(h, T))]
RECURSIVE Run(_, _)
Run(x, q) == IF q = <<>> THEN x ELSE Run(Then(x.s, x.hs, Head(q)), Tail(q))
\* every value on every way
Single ==
    /\ hist = <<>> /\ ~done
    /\ \E first \in {<<"cset", "a", t, 5>> : t \in DOMAIN Texts} \cup {<<"csetj", "a", t, 5>> : t \in Jsons} \cup {<<"foreign", "a", t, -1>> : t \in DOMAIN Raws} :
       \E n \in Names \ {"a"} :
       LET h == IF first[1] = "foreign" THEN first ELSE <<"app", first>>
           R == Run([s |-> S, hs |-> <<>>], << <<"app", <<"cset", n, "other", 9>>>>, h, <<"app", <<"tx", Q({"a", n})>>>>, <<"app", <<"hreplace", "/other/x">>>>, Reads, <<"wait", 4>>, Reads, <<"wait", 1>>, Reads>>) IN
       Emit(R.hs) /\ S' = R.s
    /\ done' = TRUE /\ UNCHANGED hist
Acts ==
    { <<"app", <<"cset", "a", "x", 2>>>>, <<"app", <<"cset", "ab", "a=b", 1>>>>, <<"app", <<"cset", "a", "y", 0>>>>, <<"app", <<"csetj", "a", "[1,\"a;b\",null]", 3>>>>,
      <<"foreign", "a", "abc==", -1>>, <<"foreign", "", "nameless", -1>>, <<"foreign", "ab", "%zz", 1>>, <<"wait", 1>>, <<"wait", 2>>, <<"app", <<"hreplace", "/">>>> }
Step ==
    /\ ~done /\ Len(hist) < 2 * Depth
    /\ \E h \in Acts : LET R == Run([s |-> S, hs |-> hist], <<h, Reads>>) IN S' = R.s /\ hist' = R.hs
    /\ UNCHANGED done
Finish == ~done /\ Len(hist) = 2 * Depth /\ Emit(hist) /\ done' = TRUE /\ UNCHANGED <<S, hist>>
Next == Single \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S)
=============================================================================
