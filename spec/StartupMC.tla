----------------------------- MODULE StartupMC ------------------------------
(* All histories of Depth steps after the start of one of a few applications. *)
EXTENDS Startup, Json
CONSTANTS Depth, App
VARIABLES S, hist
vars == <<S, hist>>
C(i) == <<"cache", i, <<<<"get", "http://a/" \o ToString(i)>>>>, -1>>
F(i, ops) == <<"fetch", i, <<<<"get", "http://f/" \o ToString(i)>>>>, ops>>
Text == [k |-> "text", s |-> "t"]
V(i) == [k |-> "var", v |-> i]
Show == CASE App = 1 -> <<Text, V(1), [k |-> "cache", c |-> 1, in |-> <<[k |-> "cache", c |-> 2, in |-> <<V(2)>>]>>]>>
          [] App = 2 -> <<[k |-> "cache", c |-> 1, in |-> <<V(1)>>], [k |-> "cache", c |-> 2, in |-> <<>>], V(2)>>
          [] App = 3 -> <<Text, V(1), V(2)>>
          [] App = 4 -> <<Text, [k |-> "rows", v |-> 1], [k |-> "cache", c |-> 1, in |-> <<[k |-> "rows", v |-> 2]>>]>>
Ini == <<C(1), C(2)>> \o (CASE App = 1 -> <<F(7, <<<<"set", 1, 7>>>>)>> [] App \in {2, 4} -> <<>> [] App = 3 -> <<<<"update", 1>>, F(7, <<<<"set", 1, 7>>, F(70, <<<<"set", 2, 7>>>>)>>)>>)
Late == CASE App = 1 -> <<>> [] App = 4 -> <<<<"set", 1, 1>>>> [] App = 2 -> <<<<"force", 2, TRUE>>, <<"set", 2, 1>>>> [] App = 3 -> <<<<"set", 2, 3>>>>
Server == "<p>server</p><div></div>"
S0 == Start(InitState(Show, Server), Ini, Late)
Init == S = S0 /\ hist = <<>>
R(st, b) == [status |-> st, type |-> "application/json", body |-> b]
Acts(n) ==
    { <<"cache", c, r>> : c \in CacheOut(S), r \in {R(200, n), R(500, 0)} } \cup { <<"fetch", i, R(200, n)>> : i \in FetchOut(S) }
    \cup { <<"app", <<"set", 1, n>>>>, <<"app", <<"forget", 1>>>>, <<"app", <<"force", 2, TRUE>>>>, <<"app", F(n, <<<<"set", 2, n>>>>)>>,
           <<"app", <<"tx", <<<<"set", 1, 100>>, <<"set", 2, 100>>, <<"forget", 1>>>>>>>> }
Step ==
    /\ Len(hist) < Depth
    /\ \E h \in Acts(Len(hist) + 1) : LET T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(S, h, T))
Finish ==
    /\ Len(hist) = Depth /\ S.started
    /\ PrintT("@@" \o ToJson([net |-> [init |-> Ini, show |-> Show, late |-> Late], ssr |-> TRUE, start |-> Rec(S0, S0), steps |-> hist]))
    /\ S' = [S EXCEPT !.started = FALSE] /\ UNCHANGED hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == S.started => Good1(S)
=============================================================================
