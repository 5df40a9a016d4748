------------------------------ MODULE RouterMC ------------------------------
(* All histories of Depth steps with two routers of one kind, every one printed. *)
EXTENDS Router, Json
CONSTANTS Depth, Kind
VARIABLES S, hist
vars == <<S, hist>>
start == <<<<"router", 1, Kind>>, <<"router", 2, Kind>>>>
show == <<[k |-> "link", href |-> "mailto:someone@other.example"]>> \o IF Kind = "hash" THEN <<[k |-> "link", href |-> "#x"]>> ELSE <<[k |-> "link", href |-> "/x"], [k |-> "link", href |-> "#g"]>>
First == IF Kind = "hash" THEN [p |-> "/", q |-> "", h |-> <<>>] ELSE [p |-> "/", q |-> "", h |-> ""]
Init == S = Ops(InitState(Kind, First), start) /\ hist = <<>>
T1 == IF Kind = "hash" THEN <<"x">> ELSE [t |-> "/x", p |-> "/x", q |-> "", h |-> ""]
T2 == IF Kind = "hash" THEN <<"y", " ", "%">> ELSE [t |-> "/x y#f", p |-> "/x%20y", q |-> "", h |-> "#f"]
G == [t |-> "#g", p |-> "", q |-> "", h |-> "#g"]
Acts(n) ==
    { <<"app", <<"rset", 1, T1>>>>, <<"app", <<"rset", 2, T2>>>>, <<"app", <<"rget", 1>>>>, <<"app", <<"rsub", n, 1>>>>,
      <<"app", <<"rsub", n, 2, "map">>>>, <<"go", -1>>, <<"go", 1>>, <<"click", T1>>, <<"out", "mailto:someone@other.example">>, <<"app", <<"tx", <<<<"rset", 1, T2>>, <<"rset", 1, T1>>>>>>>> }
    \cup (IF Kind = "history" THEN {<<"app", <<"hreplace", T2>>>>, <<"click", G>>} ELSE {<<"hash", Raw(T2)>>})
    \cup (IF S.tasks # <<>> THEN {<<"task">>} ELSE {})
    \cup { <<"app", <<"unsub", u>>>> : u \in {x \in DOMAIN S.sb : S.sb[x].live} }
Step ==
    /\ Len(hist) < Depth
    /\ \E h \in {x \in Acts(Len(hist) + 1) : x[1] = "app" /\ x[2][1] = "rsub" => \A u \in DOMAIN S.sb : ~(S.sb[u].live /\ S.sb[u].r = x[2][3])} :
       LET T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(S, h, T, show))
Emit ==
    /\ Len(hist) = Depth /\ S.ix # 0
    /\ LET T == Apply(S, <<"drain">>) IN
       PrintT("@@" \o ToJson([net |-> [init |-> start, show |-> show], url |-> "http://localhost:1111/", steps |-> Append(hist, Record(S, <<"drain">>, T, show))]))
    /\ S' = [S EXCEPT !.ix = 0] /\ UNCHANGED hist
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Good == S.ix # 0 => Good1(S)
=============================================================================
