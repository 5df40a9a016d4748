------------------------------- MODULE FetchMC ------------------------------
(* All histories of Depth steps over a small alphabet.                         *)
EXTENDS Fetch, Json
CONSTANTS Depth
VARIABLES S, hist
vars == <<S, hist>>
Init == S = InitState /\ hist = <<>>
Acts(n) ==
    { <<"app", <<"fetch", n, <<<<"get", "http://api/" \o ToString(n)>>>>, <<>>>>>>,
      <<"app", <<"fetch", n, <<<<"post", "http://api/p" \o ToString(n)>>, <<"json", "%j:j2">>>>, <<<<"fetch", 100 * n, <<<<"get", "http://api/then" \o ToString(n)>>>>, <<>>>>>>>>>>,
      <<"app", <<"fetch", n, <<<<"new", "TRACE", "http://api/t">>>>, <<<<"log", n>>>>>>>>,
      <<"timer">> }
    \cup { <<"respond", m - 1, r>> : m \in Out(S), r \in {[status |-> 200, type |-> "application/json", body |-> "j1"],
                                                       [status |-> 500, type |-> "application/json", body |-> "x3"],
                                                       [status |-> 404, type |-> "text/plain", body |-> "t2"],
                                                       [status |-> 0, type |-> "none", body |-> "t3"]} }
    \cup { <<"head", m - 1, [status |-> 200, type |-> "text/html", body |-> "t1"]>> : m \in Out(S) }
    \cup { <<"body", m - 1>> : m \in Half(S) }
Step ==
    /\ Len(hist) < Depth
    /\ \E h \in {x \in Acts(Len(hist) + 1) : x[1] = "timer" => S.ts # <<>>} : LET T == Apply(S, h) IN
          S' = T /\ hist' = Append(hist, Record(S, h, T))
Left(s) == s.ts # <<>> \/ Out(s) # {} \/ Half(s) # {}
Finish ==
    /\ Len(hist) >= Depth /\ Left(S)
    /\ LET h == IF S.ts # <<>> THEN <<"wait", 0>> ELSE IF Half(S) # {} THEN <<"body", (CHOOSE x \in Half(S) : TRUE) - 1>>
                ELSE <<"respond", (CHOOSE x \in Out(S) : TRUE) - 1, [status |-> 200, type |-> "text/plain", body |-> "t1"]>>
           T == Apply(S, h) IN
          S' = T /\ hist' = Append(hist, Record(S, h, T))
Emit ==
    /\ Len(hist) >= Depth /\ ~Left(S) /\ S.now # -1
    /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], steps |-> hist]))
    /\ S' = [S EXCEPT !.now = -1] /\ UNCHANGED hist
Next == Step \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
Good == Good2(S)
=============================================================================
