----------------------------- MODULE LazyCacheMC ----------------------------
(* All histories of Depth steps with one cache (or two sharing nothing), every *)
(* one printed.                                                                *)
EXTENDS LazyCache, Json
CONSTANTS Depth, Ttl
VARIABLES S, hist
vars == <<S, hist>>
start == <<<<"cache", 1, <<<<"get", "http://api/c1">>>>, IF Ttl = 99 THEN -1 ELSE Ttl>>>>
Init == S = Ops(InitState, start) /\ hist = <<>>
Acts(n) ==
    { <<"app", <<"read", 1>>>>, <<"app", <<"force", 1, TRUE>>>>, <<"app", <<"force", 1, FALSE>>>>, <<"app", <<"forget", 1>>>>,
      <<"app", <<"csub", n, 1, "view">>>>, <<"timer">>, <<"wait", 1001>> }
    \cup (IF Pending(S) # {} THEN {<<"answer", 1, [status |-> 200, type |-> "application/json", body |-> n]>>, <<"answer", 1, [status |-> 0, type |-> "none", body |-> 0]>>} ELSE {})
    \cup { <<"app", <<"unsub", u>>>> : u \in {x \in DOMAIN S.sb : S.sb[x].live} }
Step ==
    /\ Len(hist) < Depth
    /\ \E h \in {x \in Acts(Len(hist) + 1) : (x[1] = "timer" => S.ts # <<>>) /\ (x[1] = "app" /\ x[2][1] = "csub" => \A u \in DOMAIN S.sb : ~S.sb[u].live)} :
       LET T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(S, h, T))
Emit ==
    /\ Len(hist) = Depth /\ S.now # -1
    /\ PrintT("@@" \o ToJson([net |-> [init |-> start, show |-> <<>>], steps |-> hist]))
    /\ S' = [S EXCEPT !.now = -1] /\ UNCHANGED hist
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Good == S.now # -1 => Good1(S)
=============================================================================
