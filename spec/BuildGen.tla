------------------------------ MODULE BuildGen -------------------------------
EXTENDS Build, Json
CONSTANT Steps
VARIABLES S, hist, ndone, ok
vars == <<S, hist, ndone, ok>>
Pick(x) == RandomElement(x)
P(n, u, c) == [n |-> n, u |-> u, cdylib |-> c]
Spaces == {<<P("app", "app", TRUE)>>, <<P("core", "core", FALSE), P("my-web-app", "my_web_app", TRUE)>>, <<P("shared", "shared", FALSE)>>,
           <<P("first-app", "first_app", TRUE), P("second_app", "second_app", TRUE), P("core", "core", FALSE)>>,
           <<P("core", "core", FALSE), P("a", "a", TRUE), P("a-b-c", "a_b_c", TRUE)>>}
Names == {"fresh", "my-app", "old_one"}
Dests == {"build", "out/deep"}
Init == S = <<>> /\ hist = <<>> /\ ndone = 0 /\ ok = TRUE
Begin == /\ S = <<>>
         /\ \E w \in {Pick({x \in Spaces : ndone = 0})} : \E p \in {Pick({x \in {"root", "sub", "else"} : ndone = 0})} : S' = InitState(w, p, Dests, Names)
         /\ UNCHANGED <<hist, ndone, ok>>
Idx(n) == Pick(DOMAIN S.pkgs)
RBuild(n) == [k |-> "build", pkg |-> IF Pick(1..100 + 0 * n) <= 45 THEN "" ELSE IF Pick(1..100 + 0 * n) <= 8 THEN "nothing" ELSE S.pkgs[Idx(n)].n,
              pub |-> Pick({x \in {"/build", "/build", "/a/b", "/x-1"} : n >= 0}), noopt |-> Pick(1..3 + 0 * n) = 1, map |-> Pick(1..3 + 0 * n) = 1,
              dest |-> Pick({d \in Dests : n >= 0})]
RStep(n) ==
    LET r == Pick(1..100 + 0 * n) IN
    IF r <= 45 THEN RBuild(n)
    ELSE IF r <= 58 THEN [k |-> "edit", i |-> Idx(n), bad |-> Pick(1..4 + 0 * n) = 1]
    ELSE IF r <= 68 THEN [k |-> "asset", i |-> Idx(n), v |-> Pick(1..3 + 0 * n)]
    ELSE IF r <= 72 THEN [k |-> "vertigo"]
    ELSE IF r <= 75 THEN [k |-> "target"]
    ELSE IF r <= 80 THEN [k |-> "opt", v |-> Pick({x \in {"none", "ok", "ok", "fail"} : n >= 0})]
    ELSE IF r <= 87 THEN [k |-> "junk", d |-> Pick({d \in Dests : n >= 0}), n |-> Pick({x \in {"old.txt", "sub/old.js", "app.wasm", "wasm_run.js"} : n >= 0})]
    ELSE IF r <= 92 /\ \E x \in Names : S.news[x].k = "none" THEN [k |-> "make", n |-> Pick({x \in Names : S.news[x].k = "none"}), v |-> Pick({x \in {"empty", "file", "mine.txt", "src/lib.rs", ".hidden"} : n >= 0})]
    ELSE [k |-> "new", n |-> Pick({x \in Names : n >= 0})]
Step == /\ S # <<>> /\ ndone < Steps
        /\ \E h \in {RStep(ndone)} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T)) /\ ok' = GoodStep(S, h, T)
        /\ ndone' = ndone + 1
Finish == /\ ndone = Steps
          /\ PrintT("@@" \o ToJson([pkgs |-> S.pkgs, place |-> S.place, names |-> Names, dests |-> Dests, steps |-> hist]))
          /\ ndone' = Steps + 1 /\ UNCHANGED <<S, hist, ok>>
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == ok
=============================================================================
