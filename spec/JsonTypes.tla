-------------------------------- MODULE JsonTypes -------------------------------
(* Conversion of application types to JSON and back (B02).  Types are data:    *)
(* <<"u32">> ... <<"vec", t>> <<"opt", t>> <<"map", t>> <<"ref", name>>; the    *)
(* named types stand in Def.  Values of the application and JSON are tagged    *)
(* sequences.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Numbers are texts, with the integer types which hold them exactly.          *)
NumTab ==
  [ n |-> { <<"0", {"u32", "i32", "u64", "i64"}>>, <<"1", {"u32", "i32", "u64", "i64"}>>, <<"7", {"u32", "i32", "u64", "i64"}>>, <<"2147483647", {"u32", "i32", "u64", "i64"}>>,
            <<"-1", {"i32", "i64"}>>, <<"-2147483648", {"i32", "i64"}>>, <<"2147483648", {"u32", "u64", "i64"}>>, <<"4294967295", {"u32", "u64", "i64"}>>,
            <<"4294967296", {"u64", "i64"}>>, <<"-2147483649", {"i64"}>>, <<"9007199254740991", {"u64", "i64"}>>, <<"9007199254740992", {"u64", "i64"}>>, <<"-9007199254740991", {"i64"}>>,
            <<"9223372036854774784", {"u64", "i64"}>>, <<"9223372036854775808", {"u64"}>>, <<"-9223372036854775808", {"i64"}>>, <<"18446744073709549568", {"u64"}>>,
            <<"18446744073709551616", {}>>, <<"-9223372036854777856", {}>>, <<"0.5", {}>>, <<"-0.5", {}>>, <<"1.5", {}>>, <<"-1.25", {}>>, <<"4294967295.5", {}>>, <<"1e300", {}>>, <<"-1e300", {}>>, <<"5e-324", {}>> } ]
Numbers == { x[1] : x \in NumTab.n }
Holds == [t \in {"u32", "i32", "u64", "i64"} |-> { x[1] : x \in { y \in NumTab.n : t \in y[2] } }]
\* moments: seconds since 1970 and the fraction, with the texts which mean them; and days
Moments == { <<"0.000000000", {"1970-01-01T00:00:00+00:00", "1970-01-01T00:00:00Z", "1970-01-01T02:00:00+02:00"}>>,
             <<"1709208000.500000000", {"2024-02-29T12:00:00.500+00:00", "2024-02-29T12:00:00.5Z", "2024-02-29T06:30:00.5-05:30"}>>,
             <<"-1.000000001", {"1969-12-31T23:59:59.000000001+00:00", "1969-12-31T23:59:59.000000001Z"}>>,
             <<"253402300799.999000000", {"9999-12-31T23:59:59.999+00:00"}>>,
             <<"-62135596800.000000000", {"0001-01-01T00:00:00+00:00"}>> }
TextsOf(m) == (CHOOSE x \in Moments : x[1] = m)[2]
Times == { x[1] : x \in Moments }
TimeTexts == UNION { x[2] : x \in Moments }
TimeOf(s) == (CHOOSE x \in Moments : s \in x[2])[1]
Days == {"1970-01-01", "2024-02-29", "9999-12-31", "0001-01-01", "1900-02-28"}
NoTimes == {"2023-02-29T12:00:00Z", "2024-13-01T00:00:00Z", "2024-02-29", "2024-02-29T12:00:00", "2024-02-29T25:00:00Z", "now"}
NoDays == {"2023-02-29", "1900-02-29", "2024-13-01", "2024-00-10", "2024-02-30", "2024-02-29 12:00", "2024-02-29x", "day"}
OtherTexts == {"", "a", "A", "0", "true", "null", "~U~", "~Q~", "~N~", "~Z~", "Nothing", "B", "type", "One"}

-----------------------------------------------------------------------------
(* The named types: struct - fields with their types and, sometimes, values    *)
(* to take when the field cannot be read; tuple; wrap; enum.                   *)
U32 == <<"u32">>
I32 == <<"i32">>
U64 == <<"u64">>
I64 == <<"i64">>
Bool == <<"bool">>
Text == <<"str">>
Unit == <<"unit">>
Vec(t) == <<"vec", t>>
Opt(t) == <<"opt", t>>
Map(t) == <<"map", t>>
Tree(t) == <<"tree", t>>      \* a map with ordered keys
Ref(n) == <<"ref", n>>
F(n, t) == [name |-> n, type |-> t, default |-> <<>>]
FD(n, t, v) == [name |-> n, type |-> t, default |-> <<v>>]
Def == [
  Flat |-> <<"struct", <<F("a", U32), F("b", Text), F("c", Opt(Bool))>>>>,
  Raw |-> <<"struct", <<F("type", Text), F("match", I32), F("snake_case", U64)>>>>,
  Dflt |-> <<"struct", <<FD("n", U32, <<"int", "7">>), FD("s", Text, <<"str", "d">>), FD("o", Opt(I32), <<"none">>), F("p", Bool), FD("l", Vec(I64), <<"list", <<>>>>)>>>>,
  Empty |-> <<"struct", <<>>>>,
  Wrap |-> <<"wrap", I32>>,
  WrapFlat |-> <<"wrap", Ref("Flat")>>,
  WrapList |-> <<"wrap", Vec(Ref("Simple"))>>,
  Pair |-> <<"tuple", <<U32, Text>>>>,
  Three |-> <<"tuple", <<I64, Opt(U32), Vec(Text)>>>>,
  Simple |-> <<"enum", <<<<"A", "unit", <<>>>>, <<"B", "unit", <<>>>>, <<"Self_", "unit", <<>>>>>>>>,
  Mixed |-> <<"enum", <<<<"Nothing", "unit", <<>>>>, <<"One", "tuple", <<U32>>>>, <<"Perhaps", "tuple", <<Opt(Text)>>>>, <<"Two", "tuple", <<Text, U32>>>>,
                        <<"Point", "struct", <<F("x", I32), F("y", Opt(Ref("Wrap"))), F("type", Ref("Simple"))>>>>, <<"NoFields", "tuple", <<>>>>, <<"Unit", "tuple", <<Unit>>>>, <<"Hollow", "struct", <<>>>>, <<"Many", "tuple", <<Vec(U64)>>>>>>>>,
  Rose |-> <<"enum", <<<<"Leaf", "unit", <<>>>>, <<"Node", "tuple", <<Vec(Ref("Rose"))>>>>, <<"Tagged", "tuple", <<Vec(Ref("Rose")), Text>>>>, <<"Named", "struct", <<F("kids", Map(Ref("Rose")))>>>>>>>>,
  Rec |-> <<"struct", <<F("name", Text), F("kids", Vec(Ref("Rec"))), F("at", Opt(Ref("Simple")))>>>>,
  Event |-> <<"struct", <<F("at", <<"time">>), F("on", <<"day">>), F("until", Opt(<<"time">>))>>>>,
  Deep |-> <<"struct", <<F("m", Tree(Vec(Ref("Mixed")))), F("h", Map(Opt(Ref("Pair")))), FD("d", Ref("Dflt"), <<"struct", <<<<"int", "1">>, <<"str", "x">>, <<"none">>, <<"bool", TRUE>>, <<"list", <<>>>>>>>>), F("u", Unit)>>>> ]
\* the types to convert
Types == { U32, I32, U64, I64, Bool, Text, Unit, <<"time">>, <<"day">>, Vec(U32), Vec(Text), Vec(Vec(I32)), Opt(Text), Opt(Vec(Bool)), Map(U32), Tree(Ref("Flat")), Vec(Opt(Ref("Mixed"))), Map(Ref("Simple")) }
         \cup { Ref(n) : n \in DOMAIN Def }

-----------------------------------------------------------------------------
\* JSON: num bool null str list obj; and (written only) time: any text which means this moment
Key(l, k) == IF \E i \in DOMAIN l : l[i][1] = k THEN CHOOSE i \in DOMAIN l : l[i][1] = k ELSE 0
One(k, j) == <<"obj", <<<<k, j>>>>>>
RECURSIVE Enc(_, _)
EncTuple(ts, vs) == <<"list", [i \in DOMAIN ts |-> Enc(ts[i], vs[i])]>>
EncFields(fs, vs) == <<"obj", [i \in DOMAIN fs |-> <<fs[i].name, Enc(fs[i].type, vs[i])>>]>>
EncNamed(d, v) ==
    CASE d[1] = "struct" -> EncFields(d[2], v[2])
      [] d[1] = "tuple" -> EncTuple(d[2], v[2])
      [] d[1] = "wrap" -> Enc(d[2], v[2][1])
      [] d[1] = "enum" -> LET w == d[2][v[2]] IN
           IF w[2] = "unit" THEN <<"str", w[1]>>
           ELSE One(w[1], IF w[2] = "struct" THEN EncFields(w[3], v[3]) ELSE IF Len(w[3]) = 1 THEN Enc(w[3][1], v[3][1]) ELSE EncTuple(w[3], v[3]))
Enc(t, v) ==
    CASE t[1] \in {"u32", "i32", "u64", "i64"} -> <<"num", v[2]>>
      [] t[1] \in {"bool", "str"} -> v
      [] t[1] = "day" -> <<"str", v[2]>>
      [] t[1] = "time" -> <<"time", v[2]>>
      [] t[1] = "unit" -> <<"obj", <<>>>>
      [] t[1] = "opt" -> IF v[1] = "none" THEN <<"null">> ELSE Enc(t[2], v[2])
      [] t[1] = "vec" -> <<"list", [i \in DOMAIN v[2] |-> Enc(t[2], v[2][i])]>>
      [] t[1] \in {"map", "tree"} -> <<"obj", [i \in DOMAIN v[2] |-> <<v[2][i][1], Enc(t[2], v[2][i][2])>>]>>
      [] t[1] = "ref" -> EncNamed(Def[t[2]], v)

-----------------------------------------------------------------------------
\* reading: <<value>>, or <<>> where the JSON does not have the shape
Ok(r) == r # <<>>
AllOk(rs) == \A i \in DOMAIN rs : Ok(rs[i])
Values(rs) == [i \in DOMAIN rs |-> rs[i][1]]
RECURSIVE Dec(_, _)
DecTuple(ts, j) == IF j[1] # "list" THEN <<>> ELSE IF Len(j[2]) # Len(ts) THEN <<>>
                   ELSE LET rs == [i \in DOMAIN ts |-> Dec(ts[i], j[2][i])] IN IF AllOk(rs) THEN <<Values(rs)>> ELSE <<>>
DecField(f, j) == LET k == IF j[1] = "obj" THEN Key(j[2], f.name) ELSE 0
                      r == IF k = 0 THEN <<>> ELSE Dec(f.type, j[2][k][2]) IN
                  IF Ok(r) THEN r ELSE f.default
DecFields(fs, j) == IF fs = <<>> THEN (IF j[1] = "obj" THEN << <<>> >> ELSE <<>>) ELSE LET rs == [i \in DOMAIN fs |-> DecField(fs[i], j)] IN IF AllOk(rs) THEN <<Values(rs)>> ELSE <<>>
Map1(r, Op(_)) == IF Ok(r) THEN <<Op(r[1])>> ELSE <<>>
\* the first variant whose name the object has
Variant(vs, j) == CHOOSE i \in {x \in DOMAIN vs : vs[x][2] # "unit" /\ Key(j[2], vs[x][1]) # 0} : \A k \in 1..(i - 1) : vs[k][2] = "unit" \/ Key(j[2], vs[k][1]) = 0
DecEnum(vs, j) ==
    CASE j[1] = "str" -> LET c == {i \in DOMAIN vs : vs[i][2] = "unit" /\ vs[i][1] = j[2]} IN IF c = {} THEN <<>> ELSE << <<"enum", CHOOSE i \in c : TRUE, <<>>>> >>
      [] j[1] = "obj" -> IF ~\E i \in DOMAIN vs : vs[i][2] # "unit" /\ Key(j[2], vs[i][1]) # 0 THEN <<>>
                         ELSE LET i == Variant(vs, j) b == j[2][Key(j[2], vs[i][1])][2]
                                  r == IF vs[i][2] = "struct" THEN DecFields(vs[i][3], b)
                                       ELSE IF Len(vs[i][3]) = 1 THEN Map1(Dec(vs[i][3][1], b), LAMBDA x : <<x>>) ELSE DecTuple(vs[i][3], b) IN
                              Map1(r, LAMBDA x : <<"enum", i, x>>)
      [] OTHER -> <<>>
DecNamed(d, j) ==
    CASE d[1] = "struct" -> Map1(DecFields(d[2], j), LAMBDA x : <<"struct", x>>)
      [] d[1] = "tuple" -> Map1(DecTuple(d[2], j), LAMBDA x : <<"tuple", x>>)
      [] d[1] = "wrap" -> Map1(Dec(d[2], j), LAMBDA x : <<"wrap", <<x>>>>)
      [] d[1] = "enum" -> DecEnum(d[2], j)
Dec(t, j) ==
    CASE t[1] \in {"u32", "i32", "u64", "i64"} -> IF j[1] = "num" /\ j[2] \in Holds[t[1]] THEN << <<"int", j[2]>> >> ELSE <<>>
      [] t[1] = "bool" -> IF j[1] = "bool" THEN <<j>> ELSE <<>>
      [] t[1] = "str" -> IF j[1] = "str" THEN <<j>> ELSE <<>>
      [] t[1] = "day" -> IF j[1] = "str" /\ j[2] \in Days THEN << <<"day", j[2]>> >> ELSE <<>>
      [] t[1] = "time" -> IF j[1] = "time" THEN << <<"time", j[2]>> >> ELSE IF j[1] = "str" /\ j[2] \in TimeTexts THEN << <<"time", TimeOf(j[2])>> >> ELSE <<>>
      [] t[1] = "unit" -> IF j = <<"obj", <<>>>> THEN << <<"unit">> >> ELSE <<>>
      [] t[1] = "opt" -> IF j = <<"null">> THEN << <<"none">> >> ELSE Map1(Dec(t[2], j), LAMBDA x : <<"some", x>>)
      [] t[1] = "vec" -> IF j[1] # "list" THEN <<>> ELSE LET rs == [i \in DOMAIN j[2] |-> Dec(t[2], j[2][i])] IN IF AllOk(rs) THEN << <<"list", Values(rs)>> >> ELSE <<>>
      [] t[1] \in {"map", "tree"} -> IF j[1] # "obj" THEN <<>>
                        ELSE LET rs == [i \in DOMAIN j[2] |-> Dec(t[2], j[2][i][2])] IN
                             IF AllOk(rs) THEN << <<"map", [i \in DOMAIN j[2] |-> <<j[2][i][1], rs[i][1]>>]>> >> ELSE <<>>
      [] t[1] = "ref" -> DecNamed(Def[t[2]], j)
\* B02: nothing is lost; and what is read is a value of the type
Back(t, v) == Dec(t, Enc(t, v)) = <<v>>
RECURSIVE Is(_, _)
IsAll(fs, vs) == Len(fs) = Len(vs) /\ \A i \in DOMAIN fs : Is(fs[i].type, vs[i])
IsTuple(ts, vs) == Len(ts) = Len(vs) /\ \A i \in DOMAIN ts : Is(ts[i], vs[i])
Is(t, v) ==
    CASE t[1] \in {"u32", "i32", "u64", "i64"} -> v[1] = "int" /\ v[2] \in Holds[t[1]]
      [] t[1] = "bool" -> v[1] = "bool"
      [] t[1] = "str" -> v[1] = "str"
      [] t[1] = "day" -> v[1] = "day" /\ v[2] \in Days
      [] t[1] = "time" -> v[1] = "time" /\ v[2] \in Times
      [] t[1] = "unit" -> v = <<"unit">>
      [] t[1] = "opt" -> v = <<"none">> \/ (v[1] = "some" /\ Is(t[2], v[2]))
      [] t[1] = "vec" -> v[1] = "list" /\ \A i \in DOMAIN v[2] : Is(t[2], v[2][i])
      [] t[1] \in {"map", "tree"} -> v[1] = "map" /\ \A i \in DOMAIN v[2] : Is(t[2], v[2][i][2])
      [] t[1] = "ref" -> LET d == Def[t[2]] IN
           CASE d[1] = "struct" -> v[1] = "struct" /\ IsAll(d[2], v[2])
             [] d[1] = "tuple" -> v[1] = "tuple" /\ IsTuple(d[2], v[2])
             [] d[1] = "wrap" -> v[1] = "wrap" /\ Is(d[2], v[2][1])
             [] d[1] = "enum" -> v[1] = "enum" /\ LET w == d[2][v[2]] IN IF w[2] = "struct" THEN IsAll(w[3], v[3]) ELSE IsTuple(w[3], v[3])
Sound(t, j) == LET r == Dec(t, j) IN Ok(r) => Is(t, r[1])
=============================================================================
