------------------------------- MODULE JsonMC -------------------------------
(* For every type: a set of values with every variant, presence and absence;   *)
(* their encodings, and these with every single change: every part replaced by *)
(* each of a set of atoms, every field or item dropped, added or renamed.      *)
EXTENDS JsonTypes, Json
CONSTANTS Depth, Small      \* Small: few atoms
VARIABLES case
Atoms == { <<"null">>, <<"bool", TRUE>>, <<"str", "A">>, <<"str", "">>, <<"list", <<>>>>, <<"obj", <<>>>>, <<"num", "0">>, <<"num", "-1">>, <<"num", "4294967296">>, <<"num", "0.5">> }
         \cup (IF Small THEN {} ELSE { <<"num", x>> : x \in Numbers } \cup { <<"bool", FALSE>>, <<"str", "Nothing">>, <<"str", "~Z~">>, <<"list", <<<<"null">>>>>>, <<"obj", <<<<"One", <<"num", "1">>>>>>>>, <<"obj", <<<<"a", <<"null">>>>>>>> })
Texts == OtherTexts \cup TimeTexts \cup Days \cup NoTimes \cup NoDays
\* products of a sequence of sets: every element appears, the rest at its first choice
First(A) == CHOOSE x \in A : TRUE
RECURSIVE Prod(_)
Prod(l) == IF l = <<>> THEN {<<>>} ELSE { <<x>> \o r : x \in Head(l), r \in Prod(Tail(l)) }
Spread(l) == { [i \in DOMAIN l |-> First(l[i])] } \cup UNION { { [i \in DOMAIN l |-> IF i = k THEN x ELSE First(l[i])] : x \in l[k] } : k \in DOMAIN l }
Mix(l) == IF Len(l) <= 2 THEN (IF Cardinality(Prod(l)) <= 60 THEN Prod(l) ELSE Spread(l)) ELSE Spread(l)
RECURSIVE Vals(_, _)
ValsOf(fs, d) == Mix([i \in DOMAIN fs |-> Vals(fs[i].type, d)])
Vals(t, d) ==
    CASE t[1] \in {"u32", "i32", "u64", "i64"} -> { <<"int", x>> : x \in Holds[t[1]] }
      [] t[1] = "bool" -> { <<"bool", TRUE>>, <<"bool", FALSE>> }
      [] t[1] = "str" -> { <<"str", x>> : x \in OtherTexts }
      [] t[1] = "day" -> { <<"day", x>> : x \in Days }
      [] t[1] = "time" -> { <<"time", x>> : x \in Times }
      [] t[1] = "unit" -> { <<"unit">> }
      [] t[1] = "opt" -> { <<"none">> } \cup { <<"some", x>> : x \in Vals(t[2], d) }
      [] t[1] = "vec" -> { <<"list", <<>>>> } \cup (IF d = 0 THEN {} ELSE LET A == Vals(t[2], d - 1) IN { <<"list", <<x>>>> : x \in A } \cup { <<"list", <<First(A), x>>>> : x \in A })
      [] t[1] \in {"map", "tree"} -> { <<"map", <<>>>> } \cup (IF d = 0 THEN {} ELSE LET A == Vals(t[2], d - 1) IN { <<"map", <<<<"b", x>>>>>> : x \in A } \cup { <<"map", <<<<k, First(A)>>, <<"a", x>>>>>> : k \in {"", "~Z~", "B"}, x \in A })
      [] t[1] = "ref" -> LET e == Def[t[2]] IN
           CASE e[1] = "struct" -> { <<"struct", x>> : x \in ValsOf(e[2], d) }
             [] e[1] = "tuple" -> { <<"tuple", x>> : x \in Mix([i \in DOMAIN e[2] |-> Vals(e[2][i], d)]) }
             [] e[1] = "wrap" -> { <<"wrap", <<x>>>> : x \in Vals(e[2], d) }
             [] e[1] = "enum" -> UNION { LET w == e[2][i] IN { <<"enum", i, x>> : x \in IF w[2] = "struct" THEN ValsOf(w[3], d) ELSE Mix([k \in DOMAIN w[3] |-> Vals(w[3][k], d)]) } : i \in DOMAIN e[2] }
\* how much a value holds
RECURSIVE Size1(_), SizeAll(_)
SizeAll(l) == IF l = <<>> THEN 0 ELSE Size1(Head(l)) + SizeAll(Tail(l))
Size1(v) == CASE v[1] \in {"struct", "tuple", "wrap", "list"} -> 1 + SizeAll(v[2])
              [] v[1] = "map" -> 1 + SizeAll([i \in DOMAIN v[2] |-> v[2][i][2]])
              [] v[1] = "enum" -> 1 + SizeAll(v[3])
              [] v[1] = "some" -> 1 + Size1(v[2])
              [] OTHER -> 1
RECURSIVE Concrete(_)
Concrete(j) == CASE j[1] = "time" -> <<"str", First(TextsOf(j[2]))>>
                 [] j[1] = "list" -> <<"list", [i \in DOMAIN j[2] |-> Concrete(j[2][i])]>>
                 [] j[1] = "obj" -> <<"obj", [i \in DOMAIN j[2] |-> <<j[2][i][1], Concrete(j[2][i][2])>>]>>
                 [] OTHER -> j
Cut(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
RECURSIVE Near(_)
Near(j) ==
    Atoms \cup { <<"list", <<j>>>>, One("One", j) } \cup
    CASE j[1] = "list" -> UNION { { <<"list", [j[2] EXCEPT ![i] = x]>> : x \in Near(j[2][i]) } \cup { <<"list", Cut(j[2], i)>>, j[2][i] } : i \in DOMAIN j[2] } \cup { <<"list", Append(j[2], x)>> : x \in Atoms }
      [] j[1] = "obj" -> UNION { { <<"obj", [j[2] EXCEPT ![i][2] = x]>> : x \in Near(j[2][i][2]) } \cup { <<"obj", Cut(j[2], i)>>, j[2][i][2], <<"obj", [j[2] EXCEPT ![i][1] = "zz"]>> } : i \in DOMAIN j[2] }
                         \cup { <<"obj", Append(j[2], <<k, x>>)>> : k \in {"zz", "extra", "One", "Two"} \ {j[2][i][1] : i \in DOMAIN j[2]}, x \in Atoms }
      [] j[1] = "str" -> { <<"str", x>> : x \in Texts }
      [] OTHER -> {}
\* one value of each type is varied in all places; all values go there and back
Typical(t) == LET A == Vals(t, Depth) IN
              IF t[1] = "ref" /\ Def[t[2]][1] = "enum" THEN { First({v \in A : v[2] = i /\ \A w \in A : w[2] = i => Size1(w) <= Size1(v)}) : i \in DOMAIN Def[t[2]][2] }
              ELSE { First({v \in A : \A w \in A : Size1(w) <= Size1(v)}) }
Cases == UNION { { [t |-> t, v |-> v, enc |-> Enc(t, v), j |-> Concrete(Enc(t, v)), dec |-> Dec(t, Concrete(Enc(t, v)))] : v \in Vals(t, Depth) } : t \in Types }
    \cup UNION { UNION { { [t |-> t, v |-> v, enc |-> Enc(t, v), j |-> j, dec |-> Dec(t, j)] : j \in Near(Concrete(Enc(t, v))) } : v \in Typical(t) } : t \in Types }
Init == case \in Cases
Next == case.t # <<>> /\ PrintT("@@" \o ToJson([cases |-> <<case>>])) /\ case' = [case EXCEPT !.t = <<>>]
Spec == Init /\ [][Next]_case
Good == case.t = <<>> \/ (Back(case.t, case.v) /\ Sound(case.t, case.j))
=============================================================================
