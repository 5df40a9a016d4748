------------------------------ MODULE JsonGen ------------------------------
EXTENDS JsonTypes, Json
CONSTANTS Steps, Depth
VARIABLES hist, ndone
vars == <<hist, ndone>>
Pick(x) == RandomElement(x)
Texts == OtherTexts \cup TimeTexts \cup Days \cup NoTimes \cup NoDays
FieldNames == {"a", "b", "c", "n", "s", "o", "p", "l", "type", "match", "snake_case", "x", "y", "kids", "at", "on", "m", "h", "d", "u", "One", "Two", "Point", "Nothing", "Tagged", "Node", "r#type", "", "0", "~Z~", "__proto__"}
Odd == {" a", "a ", " ", "a b", "A.b", "~Q~ ", "0x", "-1"}
RECURSIVE KeyList(_, _)
KeyList(k, used) == IF k = 0 THEN <<>> ELSE LET x == Pick((IF Pick(1..2 + 0 * k) = 1 THEN FieldNames ELSE OtherTexts \cup Odd \cup FieldNames) \ used) IN <<x>> \o KeyList(k - 1, used \cup {x})
Size(n) == Pick({0, 1, 1, 2, 2, 3})
Flip(n) == Pick({n = 0, n # 0})

RECURSIVE Val(_, _, _)
ValFields(n, fs, d) == TLCEval([i \in DOMAIN fs |-> Val(n, fs[i].type, d)])
ValTuple(n, ts, d) == TLCEval([i \in DOMAIN ts |-> Val(n, ts[i], d)])
ValNamed(n, d, k) ==
    CASE d[1] = "struct" -> <<"struct", ValFields(n, d[2], k)>>
      [] d[1] = "tuple" -> <<"tuple", ValTuple(n, d[2], k)>>
      [] d[1] = "wrap" -> <<"wrap", <<Val(n, d[2], k)>>>>
      [] d[1] = "enum" -> LET i == Pick(DOMAIN d[2]) w == d[2][i] IN <<"enum", i, IF w[2] = "struct" THEN ValFields(n, w[3], k) ELSE ValTuple(n, w[3], k)>>
Val(n, t, d) ==
    CASE t[1] \in {"u32", "i32", "u64", "i64"} -> <<"int", Pick({x \in Holds[t[1]] : n >= 0})>>
      [] t[1] = "bool" -> <<"bool", Flip(n)>>
      [] t[1] = "str" -> <<"str", Pick(IF Flip(n) THEN OtherTexts \cup Odd ELSE Texts)>>
      [] t[1] = "day" -> <<"day", Pick({x \in Days : n >= 0})>>
      [] t[1] = "time" -> <<"time", Pick({x \in Times : n >= 0})>>
      [] t[1] = "unit" -> <<"unit">>
      [] t[1] = "opt" -> IF Pick(1..3) = 1 THEN <<"none">> ELSE <<"some", Val(n, t[2], d)>>
      [] t[1] = "vec" -> LET k == IF d <= 0 THEN 0 ELSE Size(n) IN <<"list", TLCEval([i \in 1..k |-> Val(n, t[2], d - 1)])>>
      [] t[1] \in {"map", "tree"} -> LET ks == IF d <= 0 THEN <<>> ELSE TLCEval(KeyList(Size(n), {})) IN <<"map", TLCEval([i \in DOMAIN ks |-> <<ks[i], Val(n, t[2], d - 1)>>])>>
      [] t[1] = "ref" -> ValNamed(n, Def[t[2]], d)

\* a moment as some text
RECURSIVE Concrete(_, _)
Concrete(n, j) == CASE j[1] = "time" -> <<"str", Pick(TextsOf(j[2]))>>
                 [] j[1] = "list" -> <<"list", TLCEval([i \in DOMAIN j[2] |-> Concrete(n, j[2][i])])>>
                 [] j[1] = "obj" -> <<"obj", TLCEval([i \in DOMAIN j[2] |-> <<j[2][i][1], Concrete(n, j[2][i][2])>>])>>
                 [] OTHER -> j
RECURSIVE Whatever(_, _)
Whatever(n, d) == LET r == Pick(1..10) IN
    CASE r <= 2 -> <<"num", Pick({x \in Numbers : n >= 0})>>
      [] r = 3 -> <<"bool", Flip(n)>>
      [] r = 4 -> <<"null">>
      [] r <= 6 \/ d = 0 -> <<"str", Pick({x \in Texts : n >= 0})>>
      [] r <= 8 -> <<"list", LET k == Size(n) IN TLCEval([i \in 1..k |-> Whatever(n, d - 1)])>>
      [] OTHER -> <<"obj", LET ks == TLCEval(KeyList(Size(n), {})) IN TLCEval([i \in DOMAIN ks |-> <<ks[i], Whatever(n, d - 1)>>])>>
Cut(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Names(l) == {l[i][1] : i \in DOMAIN l}
\* another JSON, changed in one place; an encoding of some type in place of something
Other(n) == LET r == Pick(1..4) t == Pick({x \in Types : n >= 0}) IN IF r <= 2 THEN Concrete(n, Enc(t, Val(n, t, 1))) ELSE Whatever(n, 2)
RECURSIVE Mut(_, _)
Mut(n, j) ==
    LET r == Pick(1..10) IN
    IF j[1] \notin {"list", "obj"} THEN (IF r <= 2 THEN <<"list", <<j>>>> ELSE IF r = 3 THEN One(Pick({x \in FieldNames : n >= 0}), j) ELSE Other(n))
    ELSE IF j[2] = <<>> THEN (IF r <= 4 THEN Other(n) ELSE IF j[1] = "list" THEN <<"list", <<Whatever(n, 1)>>>> ELSE One(Pick({x \in FieldNames : n >= 0}), Whatever(n, 1)))
    ELSE LET i == Pick(DOMAIN j[2]) IN
         IF r <= 5 THEN (IF j[1] = "list" THEN <<"list", [j[2] EXCEPT ![i] = Mut(n, j[2][i])]>> ELSE <<"obj", [j[2] EXCEPT ![i] = <<j[2][i][1], Mut(n, j[2][i][2])>>]>>)
         ELSE IF r = 6 THEN <<j[1], Cut(j[2], i)>>
         ELSE IF r = 7 THEN (IF j[1] = "list" THEN <<"list", Append(j[2], j[2][i])>> ELSE <<"obj", Append(j[2], <<Pick(FieldNames \ Names(j[2])), Whatever(n, 1)>>)>>)
         ELSE IF r = 8 THEN (IF j[1] = "list" THEN j[2][i] ELSE <<"obj", [j[2] EXCEPT ![i] = <<Pick(FieldNames \ (Names(j[2]) \ {j[2][i][1]})), j[2][i][2]>>]>>)
         ELSE IF r = 9 THEN <<"list", <<j>>>>
         ELSE Other(n)
RECURSIVE MutN(_, _, _)
MutN(n, k, j) == IF k = 0 THEN j ELSE MutN(n, k - 1, Mut(n, j))

Case(n) == LET t == Pick({x \in Types : n >= 0}) v == TLCEval(Val(n, t, Pick(0..Depth))) e == Enc(t, v)
               j == TLCEval(MutN(n, Pick({0, 1, 1, 1, 2, 3}), Concrete(n, e))) IN
           [t |-> t, v |-> v, enc |-> e, j |-> j, dec |-> Dec(t, j)]
Init == hist = <<>> /\ ndone = 0
Step ==
    /\ ndone < Steps
    /\ \E c \in {Case(ndone + 1)} : hist' = Append(hist, c)
    /\ ndone' = ndone + 1
Finish ==
    /\ ndone = Steps
    /\ PrintT("@@" \o ToJson([cases |-> hist]))
    /\ ndone' = Steps + 1 /\ UNCHANGED hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == \A i \in DOMAIN hist : i = Len(hist) => Back(hist[i].t, hist[i].v) /\ Sound(hist[i].t, hist[i].j)
=============================================================================
