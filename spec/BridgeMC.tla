------------------------------ MODULE BridgeMC ------------------------------
(* Every value of a small set, on every way across the border: assigned to a  *)
(* property and read again, as the first and as the second argument of a      *)
(* call, back once more after it was received, inside of an object of the     *)
(* page; and every value of the page as received and returned.                *)
EXTENDS Bridge, Json
CONSTANTS Sizes, Size2        \* how many entries big containers have, and the biggest
VARIABLES S, P, H, hist, todo
vars == <<S, P, H, hist, todo>>

RAtoms == { <<"u32", x>> : x \in {"0", "1", "2147483648", "4294967295"} } \cup { <<"i32", x>> : x \in {"-1", "-2147483648", "2147483647"} }
     \cup { <<"u64", x>> : x \in {"0", "9007199254740993", "9223372036854775808", "18446744073709551615"} }
     \cup { <<"i64", x>> : x \in {"-1", "-9223372036854775808", "9223372036854775807"} }
     \cup { <<"f64", x>> : x \in {"0.5", "-1e300", "5e-324", "NaN", "-Infinity", "4294967296"} }
     \cup { <<"bool", TRUE>>, <<"bool", FALSE>>, <<"null">>, <<"undef">>, <<"bytes", <<>>>>, <<"bytes", <<0, 255, 13>>>> }
     \cup { <<"str", x>> : x \in {"", "a", "~U~", "~Z~", "~B~", "__proto__"} }
PAtoms == { <<"num", x>> : x \in {"0", "-1", "2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740991", "0.5", "1e300", "NaN", "Infinity"} }
     \cup { <<"big", x>> : x \in {"0", "-1", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808"} }
     \cup { <<"bool", TRUE>>, <<"bool", FALSE>>, <<"null">>, <<"undef">>, <<"bytes", <<>>>>, <<"bytes", <<0, 255, 13>>>> }
     \cup { <<"str", x>> : x \in {"", "a", "~U~", "~Z~", "~B~", "__proto__"} }
JAtoms == { p \in PAtoms : p[1] \in {"bool", "null", "str"} } \cup { <<"num", x>> : x \in {"0", "-1", "4294967296", "0.5", "1e300"} }
Keys == {"a", "", "~Z~", "__proto__", "constructor", "0", "length"}
Lists(A) == { <<"list", <<>>>> } \cup { <<"list", <<x>>>> : x \in A } \cup { <<"list", <<x, y>>>> : x \in A, y \in A }
Objects(A) == { <<"obj", <<>>>> } \cup { <<"obj", <<<<k, x>>>>>> : k \in Keys, x \in A }
Nested(A, B) == { <<"list", <<x, y>>>> : x \in A, y \in B } \cup { <<"obj", <<<<"b", x>>, <<"a", y>>>>>> : x \in A, y \in B }
Many(A) == { <<"listn", n, x>> : n \in Sizes, x \in A } \cup { <<"objn", n, x>> : n \in Sizes, x \in A }
Texts == { <<"strn", n, x>> : n \in Sizes, x \in {"a", "~Z~"} }
Bufs == { <<"bytesn", n>> : n \in Sizes }
Bigs(one, two) == Many({one, two}) \cup Texts \cup Bufs
Small(A) == { x \in A : x[1] \notin {"listn", "objn", "strn"} }
Some(A) == { CHOOSE x \in A : x[1] = k : k \in { x[1] : x \in A } }
JVals == JAtoms \cup Lists(Some(JAtoms)) \cup Objects(Some(JAtoms)) \cup { <<"listn", Size2, <<"str", "~Z~">>>>, <<"objn", Size2, <<"null">>>>, <<"strn", Size2, "~Z~">> }
RVals == RAtoms \cup Lists(RAtoms) \cup Objects(RAtoms) \cup Nested(Some(RAtoms), Lists(Some(RAtoms)) \cup Objects(Some(RAtoms))) \cup Bigs(<<"u32", "7">>, <<"str", "x">>)
     \cup { <<"json", j>> : j \in JVals } \cup { <<"list", <<<<"json", j>>, <<"u32", "1">>>>>> : j \in Small(JVals) } \cup { <<"obj", <<<<"k", <<"json", j>>>>, <<"n", <<"null">>>>>>>> : j \in Small(JVals) }
PVals == PAtoms \cup Lists(PAtoms) \cup Objects(PAtoms) \cup Nested(Some(PAtoms), Lists(Some(PAtoms)) \cup Objects(Some(PAtoms))) \cup Bigs(<<"num", "7">>, <<"str", "x">>)

A(o) == <<"app", o>>
Sent(v) == << A(<<"set", <<"w">>, "a", v>>), A(<<"get", <<"w">>, "a", "k1">>), A(<<"call", <<"e">>, "args", <<v, <<"kept", "k1">>, <<"u32", "1">>>>, "">>),
              A(<<"call", <<"d">>, "first", <<v>>, "k2">>), A(<<"set", <<"d">>, "b", <<"kept", "k2">>>>), A(<<"macro", <<"W">>, "a", "">>),
              A(<<"macro", <<"W">>, "args()", "", v, <<"kept", "k2">>>>),
              A(<<"props", <<"d">>, <<"a", "b">>, "">>), A(<<"set", <<"e">>, "c", <<"obj", <<<<"x", <<"null">>>>>>>>>>), A(<<"set", <<"e", "c">>, "x", v>>), A(<<"get", <<"e", "c">>, "x", "">>) >>
Taken(v) == << <<"js", "e", "b", v>>, A(<<"get", <<"e">>, "b", "k1">>), A(<<"set", <<"w">>, "a", <<"kept", "k1">>>>), A(<<"props", <<"e">>, <<"a", "b", "c">>, "k2">>), A(<<"call", <<"w">>, "store", <<<<"kept", "k2">>, <<"kept", "k1">>>>, "">>),
               A(<<"call", <<"w">>, "pair", <<<<"kept", "k1">>>>, "">>), A(<<"macro", <<"W">>, "a", "">>) >>
Asked(v) == << A(<<"post", <<"">>, v>>), <<"reply", v>> >>
Init == /\ S = InitState /\ P = InitState /\ H = <<"none">> /\ hist = <<>>
        /\ \/ \E v \in RVals : todo = Sent(v)
           \/ \E v \in PVals : todo = Taken(v)
           \/ \E v \in {j \in JVals : j[1] \notin {"str", "strn"}} : todo = Asked(v)
Step ==
    /\ todo # <<>>
    /\ \E T \in {Apply(S, Head(todo))} : S' = T /\ hist' = Append(hist, Record(Head(todo), T))
    /\ P' = S /\ H' = Head(todo) /\ todo' = Tail(todo)
Emit ==
    /\ todo = <<>> /\ H # <<"done">>
    /\ PrintT("@@" \o ToJson([steps |-> hist]))
    /\ H' = <<"done">> /\ UNCHANGED <<S, P, hist, todo>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Good == Whole(S, P, H) /\ (H[1] = "app" /\ H[2][1] = "set" => Carried(H[2][4]))
=============================================================================
