------------------------------ MODULE Cookies ------------------------------
(* Cookies (F06): what the application sets is what it reads back, until it    *)
(* expires or somebody else changes it.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Texts, with the JSON they are read as ("~L~" when they are no JSON). ~..~ stand for other characters.
Texts == [x \in {"x", "", "a=b", "a;b", "a, b", " lead", "trail ", "~U~", "~Q~", "~N~", "~Z~", "%41", "100%", "+", "\"", "x; path=/y", "not json", "{\"a\":", "undefined", "NaN"} |-> "~L~"]
         @@ [x \in {"12", "-3", "0.5", "true", "false", "~L~", "\"\"", "\"x y\"", "\"~Z~;=\"", "[]", "[1,\"a;b\",null]", "{}", "{\"a\":{\"b\":[true,\"=\"]}}"} |-> x]
Jsons == {x \in DOMAIN Texts : Texts[x] = x}
\* Values which other software (or the server) sets as they are, with what they mean: percent-encoding is decoded where it is one
Raws == ("plain" :> "plain") @@ ("" :> "") @@ ("a%20b" :> "a b") @@ ("%C5%BC" :> "~Z~") @@ ("abc==" :> "abc==") @@ ("k=v&l=%3D" :> "k=v&l==") @@ ("%zz" :> "%zz")
        @@ ("50%" :> "50%") @@ ("%ff" :> "%ff") @@ ("\"q\"" :> "\"q\"") @@ ("12" :> "12") @@ ("{%22a%22:1}" :> "{\"a\":1}")
JsonOf(t) == IF t \in DOMAIN Texts THEN Texts[t] ELSE IF t \in {"\"q\"", "12", "{\"a\":1}"} THEN t ELSE "~L~"
Names == {"a", "A", "ab", "b", "a.b", "a*", "__proto__", "constructor"}

\* jar: name -> [v: what it means, at: second at which it expires (-1: never), own: set by the application]
InitState == [jar |-> <<>>, now |-> 0, log |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Store(s, n, c) == [s EXCEPT !.jar = IF c.at # -1 /\ c.at <= s.now THEN Drop(@, {n}) ELSE Put(@, n, c)]
Value(s, n) == IF n \in DOMAIN s.jar THEN s.jar[n].v ELSE ""
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Op(s, o) ==
    CASE o[1] = "cset" -> Store(s, o[2], [v |-> o[3], at |-> s.now + o[4], own |-> TRUE])
      [] o[1] = "csetj" -> Store(s, o[2], [v |-> o[3], at |-> s.now + o[4], own |-> TRUE])
      [] o[1] = "cget" -> Say(s, <<"cget", o[2], Value(s, o[2])>>)
      [] o[1] = "cgetj" -> Say(s, <<"cgetj", o[2], JsonOf(Value(s, o[2]))>>)
      [] o[1] = "hreplace" -> s
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))
Expire(s) == [s EXCEPT !.jar = Drop(@, {n \in DOMAIN @ : @[n].at # -1 /\ @[n].at <= s.now})]
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>] IN
    CASE h[1] = "app" /\ h[2][1] = "tx" -> Ops(T, h[2][2])
      [] h[1] = "app" /\ h[2][1] # "tx" -> Op(T, h[2])
      [] h[1] = "wait" -> Expire([T EXCEPT !.now = @ + h[2]])
      [] h[1] = "foreign" -> IF h[2] = "" THEN T ELSE Store(T, h[2], [v |-> Raws[h[3]], at |-> IF h[4] = -1 THEN -1 ELSE T.now + h[4], own |-> FALSE])

\* for the replay: the clock is in milliseconds; the attributes of the cookies of the application
Do(h) == CASE h[1] = "wait" -> <<"wait", h[2] * 1000>>
           [] h[1] = "foreign" /\ h[2] = "" -> <<"cookie", h[3]>>
           [] h[1] = "foreign" /\ h[2] # "" -> <<"cookie", h[2] \o "=" \o h[3] \o "; path=/" \o (IF h[4] = -1 THEN "" ELSE "; max-age=" \o ToString(h[4]))>>
           [] OTHER -> h
Own(s) == {n \in DOMAIN s.jar : s.jar[n].own}
Record(h, t) == [do |-> Do(h), log |-> t.log, cookies |-> [names |-> DOMAIN t.jar, own |-> Own(t)]]

-----------------------------------------------------------------------------
Fresh(s) == \A n \in DOMAIN s.jar : s.jar[n].at = -1 \/ s.jar[n].at > s.now
\* what was set last and has not expired is what is read: by construction of Value, and JSON which was set is read as itself
Lossless(s) == \A n \in DOMAIN s.jar : s.jar[n].own /\ s.jar[n].v \in Jsons => JsonOf(Value(s, n)) = s.jar[n].v
Good1(s) == Fresh(s) /\ Lossless(s)
=============================================================================
