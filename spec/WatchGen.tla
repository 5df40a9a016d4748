------------------------------- MODULE WatchGen -------------------------------
EXTENDS Watch, Json
CONSTANT Steps
VARIABLES S, hist, ndone, conf
vars == <<S, hist, ndone, conf>>
Pick(x) == RandomElement(x)
Tabs == {"a", "b", "c"}
Init == S = <<>> /\ hist = <<>> /\ ndone = 0 /\ conf = <<>>
Begin0 == /\ S = <<>>
          /\ \E o \in {Pick({x \in BOOLEAN : ndone = 0})} : S' = InitState(o, Tabs)
          /\ conf' = [layout |-> Pick({x \in {"single", "member"} : ndone = 0}), named |-> Pick({x \in BOOLEAN : ndone = 0}), late |-> Pick({x \in BOOLEAN : ndone = 0})]
          /\ UNCHANGED <<hist, ndone>>
How == {"write", "write", "burst", "create", "rename", "remove", "mkdir", "deep", "extra", "manifest"}
Tab(n) == [k \in {"t"} |-> Pick({t \in Tabs : n >= 0})]
REdit(n) == [k |-> "edit", how |-> Pick({x \in How : n >= 0}), bad |-> Pick(1..10 + 0 * n) <= 3]
K(k, n) == [k |-> k, t |-> Pick({t \in Tabs : n >= 0})]
RStep(n) ==
    LET r == Pick(1..100 + 0 * n) IN
    IF Busy(S) THEN
        IF r <= 45 THEN [k |-> IF S.ph = "opt" THEN "optdone" ELSE "finish"]
        ELSE IF r <= 62 THEN REdit(n)
        ELSE IF r <= 70 THEN [k |-> "noise", how |-> Pick({x \in {"target", "dest", "outside"} : n >= 0})]
        ELSE IF r <= 85 THEN K("connect", n)
        ELSE K("close", n)
    ELSE IF r <= 30 THEN REdit(n)
        ELSE IF r <= 37 THEN [k |-> "noise", how |-> Pick({x \in {"target", "dest", "outside"} : n >= 0})]
        ELSE IF S.ph = "failed" THEN IF r <= 55 THEN K("dismiss", n) ELSE IF r <= 70 THEN K("connect", n) ELSE IF r <= 75 THEN K("close", n) ELSE REdit(n)
        ELSE IF r <= 62 THEN K("open", n) ELSE IF r <= 76 THEN K("openslow", n) ELSE IF r <= 88 THEN K("connect", n) ELSE IF r <= 94 THEN K("reload", n) ELSE K("close", n)
Step == /\ S # <<>> /\ ndone < Steps
        /\ \E h \in {RStep(ndone + TLCGet("level"))} :
              IF Can(S, h) THEN \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T)) /\ ndone' = ndone + 1
              ELSE UNCHANGED <<S, hist>> /\ ndone' = ndone
        /\ UNCHANGED conf
\* in the end everything comes to rest
Rest == /\ ndone \in Steps..Steps + 9 /\ Busy(S)
        /\ \E h \in {[k |-> IF S.ph = "opt" THEN "optdone" ELSE "finish"]} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T))
        /\ ndone' = ndone + 1 /\ UNCHANGED conf
Finish0 == /\ ndone \in Steps..Steps + 9 /\ ~Busy(S)
           /\ PrintT("@@" \o ToJson([conf |-> conf, opt |-> S.opt, steps |-> hist]))
           /\ ndone' = Steps + 10 /\ UNCHANGED <<S, hist, conf>>
Next == Begin0 \/ Step \/ Rest \/ Finish0
Spec == Init /\ [][Next]_vars
Sound == S # <<>> => Good(S)
=============================================================================
