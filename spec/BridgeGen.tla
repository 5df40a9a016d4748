----------------------------- MODULE BridgeGen -----------------------------
EXTENDS Bridge, Json
CONSTANTS Steps, Depth
VARIABLES S, P, H, hist, ndone
vars == <<S, P, H, hist, ndone>>
Pick(x) == RandomElement(x)
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE Head(l) \o Join(Tail(l))
D(n) == Join(TLCEval([i \in 1..n |-> ToString(Pick(0..9))]))
Sign(n) == Pick({"", "-"})
U32(n) == LET r == Pick(1..10) IN CASE r <= 5 -> Pick({"0", "1", "2147483647", "2147483648", "4294967295", "65536", "255"}) [] OTHER -> ToString(Pick(0..2147483646))
I32(n) == LET r == Pick(1..10) IN CASE r <= 4 -> Pick({"0", "-1", "2147483647", "-2147483648", "-65536"}) [] OTHER -> Sign(n) \o ToString(Pick(1..2147483646))
U64(n) == LET r == Pick(1..10) IN CASE r <= 5 -> Pick({"0", "1", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615"})
            [] r <= 7 -> Pick({"10", "15", "16", "17"}) \o D(18) [] OTHER -> ToString(Pick(1..9)) \o D(Pick(0..18))
I64(n) == LET r == Pick(1..10) IN CASE r <= 4 -> Pick({"0", "-1", "9223372036854775807", "-9223372036854775808", "-9007199254740993"}) [] OTHER -> Sign(n) \o ToString(Pick(1..9)) \o D(Pick(0..17))
\* finite numbers
Fin(n) == LET r == Pick(1..10) IN CASE r <= 5 -> Pick({"0", "-0", "0.5", "-1.5", "1e300", "5e-324", "-1.7976931348623157e308", "2147483648", "-2147483649", "9007199254740991", "9007199254740992", "18446744073709551616", "0.1", "4294967296.5", "1e21", "1e-7"})
            [] r <= 7 -> I32(n) [] OTHER -> Sign(n) \o ToString(Pick(1..9)) \o "." \o D(Pick(1..16)) \o "e" \o Sign(n) \o ToString(Pick(0..300))
F64(n) == IF Pick(1..8) = 1 THEN Pick({"NaN", "Infinity", "-Infinity"}) ELSE Fin(n)
Str(n) == Pick({"", "a", "abc", "~U~", "~Q~", "~N~", "~B~", "~Z~", "true", "12", "%", "type", "__proto__"})
Keys == {"a", "b", "type", "value", "__proto__", "", "~U~", "~N~", "~B~", "0", "10", "constructor", "toString", "length", "toJSON"}
Bytes(n) == LET k == Pick({0, 1, 2, 5}) IN TLCEval([i \in 1..k |-> Pick({0, 1, 10, 13, 127, 128, 255})])
\* distinct keys
RECURSIVE KeyList(_, _)
KeyList(k, used) == IF k = 0 THEN <<>> ELSE LET x == Pick(Keys \ used) IN <<x>> \o KeyList(k - 1, used \cup {x})
Size(n) == Pick({0, 1, 1, 2, 2, 3})

RECURSIVE JVal(_, _)
JVal(n, d) ==
    LET r == Pick(1..100) IN
    IF d = 0 \/ r <= 50 THEN (CASE r % 6 = 0 -> <<"null">> [] r % 6 = 1 -> <<"bool", Pick({n = 0, n # 0})>> [] r % 6 \in {2, 3} -> <<"num", Fin(n)>> [] OTHER -> <<"str", Str(n)>>)
    ELSE IF r <= 75 THEN <<"list", LET k == Size(n) IN TLCEval([i \in 1..k |-> JVal(n, d - 1)])>>
    ELSE <<"obj", LET ks == TLCEval(KeyList(Size(n), {})) IN TLCEval([i \in DOMAIN ks |-> <<ks[i], JVal(n, d - 1)>>])>>
RECURSIVE RVal(_, _)
RVal(n, d) ==
    LET r == Pick(1..100) IN
    IF d = 0 \/ r <= 50 THEN
       (CASE r % 16 \in {0, 1} -> <<"u32", U32(n)>> [] r % 16 \in {2, 3} -> <<"i32", I32(n)>> [] r % 16 \in {4, 5} -> <<"u64", U64(n)>> [] r % 16 \in {6, 7} -> <<"i64", I64(n)>>
          [] r % 16 \in {8, 9} -> <<"f64", F64(n)>> [] r % 16 = 10 -> <<"bool", Pick({n = 0, n # 0})>> [] r % 16 = 11 -> <<"null">> [] r % 16 = 12 -> <<"undef">> [] r % 16 = 13 -> <<"bytes", Bytes(n)>>
          [] OTHER -> <<"str", Str(n)>>)
    ELSE IF r <= 65 THEN <<"list", LET k == Size(n) IN TLCEval([i \in 1..k |-> RVal(n, d - 1)])>>
    ELSE IF r <= 80 THEN <<"obj", LET ks == TLCEval(KeyList(Size(n), {})) IN TLCEval([i \in DOMAIN ks |-> <<ks[i], RVal(n, d - 1)>>])>>
    ELSE IF r <= 92 \/ DOMAIN S.kept = {} THEN <<"json", JVal(n, d - 1)>>
    ELSE <<"kept", Pick(DOMAIN S.kept)>>
RECURSIVE PVal(_, _)
PVal(n, d) ==
    LET r == Pick(1..100) IN
    IF d = 0 \/ r <= 50 THEN
       (CASE r % 10 \in {0, 1} -> <<"num", F64(n)>> [] r % 10 = 2 -> <<"num", U32(n)>> [] r % 10 = 3 -> <<"big", U64(n)>> [] r % 10 = 4 -> <<"big", I64(n)>> [] r % 10 = 5 -> <<"bool", Pick({n = 0, n # 0})>>
          [] r % 10 = 6 -> Pick({<<"null">>, <<"undef">>}) [] r % 10 = 7 -> <<"bytes", Bytes(n)>> [] OTHER -> <<"str", Str(n)>>)
    ELSE IF r <= 75 THEN <<"list", LET k == Size(n) IN TLCEval([i \in 1..k |-> PVal(n, d - 1)])>>
    ELSE <<"obj", LET ks == TLCEval(KeyList(Size(n), {})) IN TLCEval([i \in DOMAIN ks |-> <<ks[i], PVal(n, d - 1)>>])>>
\* a path to a container: a root, or a container in the page
Safe(k) == k \notin {"__proto__", "length"}
RECURSIVE Into(_, _)
Into(p, d) ==
    LET next == IF p[1] = "obj" THEN {p[2][i][1] : i \in {x \in DOMAIN p[2] : p[2][x][2][1] \in {"obj", "list"} /\ Safe(p[2][x][1])}} ELSE {ToString(i - 1) : i \in {x \in DOMAIN p[2] : p[2][x][1] \in {"obj", "list"}}} IN
    IF next = {} \/ d = 0 \/ Pick(1..3) = 1 THEN <<>> ELSE LET k == Pick(next) IN <<k>> \o Into(Child(p, k), d - 1)
Place(n) ==
    LET r == Pick(Roots) cs == {q \in Props : S.js[r][q][1] \in {"obj", "list"}} IN
    IF cs = {} \/ Pick(1..2) = 1 THEN <<r>> ELSE LET q == Pick(cs) IN <<r, q>> \o Into(S.js[r][q], 3)
\* a property of what is there
Name(path) == IF Len(path) = 1 THEN Pick(Props)
              ELSE LET p == At(S, path) IN
                   IF p[1] = "obj" THEN LET ks == {p[2][i][1] : i \in DOMAIN p[2]} IN IF ks = {} \/ Pick(1..6) = 1 THEN "nothing" ELSE Pick(ks)
                   ELSE Pick({"length"} \cup {ToString(i - 1) : i \in DOMAIN p[2]})
Slot(path) == IF Len(path) = 1 THEN Pick(Props)
              ELSE LET p == At(S, path) IN
                   IF p[1] = "obj" THEN Pick({k \in {p[2][i][1] : i \in DOMAIN p[2]} \cup {"new"} : Safe(k)})
                   ELSE Pick({ToString(i - 1) : i \in DOMAIN p[2]})
Keep(n) == Pick({"", "", "k1", "k2"})
\* JSON which is not a single text (see F02)
Body(n) == LET j == JVal(n, Depth) IN IF j[1] = "str" THEN <<"list", <<j>>>> ELSE j
ROp(n) ==
    LET r == Pick(1..100) path == TLCEval(Place(n)) IN
    CASE r <= 26 -> IF Len(path) > 1 /\ At(S, path) = <<"list", <<>>>> THEN <<"whole", path, Keep(n)>> ELSE <<"set", path, Slot(path), RVal(n, Depth)>>
      [] r <= 46 -> <<"get", path, Name(path), Keep(n)>>
      [] r <= 54 -> IF Len(path) = 1 THEN <<"get", path, Name(path), Keep(n)>> ELSE <<"whole", path, Keep(n)>>
      [] r <= 64 -> <<"props", <<path[1]>>, Pick({<<"a">>, <<"a", "b">>, <<"c", "a", "b">>, <<>>}), Keep(n)>>
      [] r <= 86 -> <<"call", <<path[1]>>, Pick({"first", "args", "pair", "store"}), LET k == Pick({0, 1, 1, 2, 3}) IN TLCEval([i \in 1..k |-> RVal(n, Depth - 1)]), Keep(n)>>
      [] r <= 92 \/ S.asked -> LET f == Pick({"a", "b", "args()"}) IN IF f = "args()" THEN <<"macro", <<"W">>, f, Keep(n), RVal(n, Depth - 1), RVal(n, 1)>> ELSE <<"macro", <<"W">>, f, Keep(n)>>
      [] OTHER -> <<"post", <<"">>, Body(n)>>
RHost(n) ==
    LET r == Pick(1..100) IN
    IF S.asked /\ r <= 30 THEN <<"reply", JVal(n, Depth)>>
    ELSE IF r <= 75 THEN <<"app", ROp(n)>>
    ELSE <<"js", Pick(Roots), Pick(Props), PVal(n, Depth)>>
Init == S = InitState /\ P = InitState /\ H = <<"none">> /\ hist = <<>> /\ ndone = 0
Step ==
    /\ ndone < Steps
    /\ \E h \in {RHost(ndone + 1)} : \E T \in {Apply(S, h)} : S' = T /\ P' = S /\ H' = h /\ hist' = Append(hist, Record(h, T))
    /\ ndone' = ndone + 1
Finish ==
    /\ ndone = Steps
    /\ PrintT("@@" \o ToJson([steps |-> hist]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<S, P, H, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Whole(S, P, H) /\ (H[1] = "app" /\ H[2][1] = "set" => Carried(H[2][4]))
=============================================================================
