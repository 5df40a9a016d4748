------------------------------ MODULE TimersMC ------------------------------
(* All histories of Depth steps over a small alphabet; every one is printed.   *)
EXTENDS Timers, Json
CONSTANTS Depth
VARIABLES S, hist
vars == <<S, hist>>

Init == S = InitState(1) /\ hist = <<>>
Acts(n) == {
    <<"app", <<"spawn", n, <<<<"sleep", 2>>, <<"set", 1, n>>, <<"log", n>>>>>>>>,
    <<"app", <<"spawn", n, <<<<"recv", 1>>, <<"join", 0, 3>>, <<"send", 2, n>>>>>>>>,
    <<"app", <<"spawn", n, <<<<"spawn", 100 * n, <<<<"recv", 2>>, <<"set", 1, 9>>>>>>, <<"log", n>>, <<"send", 1, n>>>>>>>>,
    <<"app", <<"interval", 1, 1, <<<<"set", 1, n>>, <<"set", 1, n + 1>>>>>>>>,
    <<"app", <<"interval", 2, 3, <<<<"clear", 1>>, <<"clear", 2>>, <<"send", 1, n>>>>>>>>,
    <<"app", <<"clear", 1>>>>,
    <<"app", <<"box", 1>>>>, <<"app", <<"box", 2>>>>,
    <<"app", <<"send", 1, n>>>>,
    <<"app", <<"watch", 1, <<1, 1>>>>>>,
    <<"timer">>, <<"wait", 2>> }
\* a name is not given twice
Ok(h) == CASE h[1] # "app" -> TRUE
           [] h[2][1] = "interval" -> h[2][2] \notin DOMAIN S.iv
           [] h[2][1] = "box" -> h[2][2] \notin DOMAIN S.bx
           [] h[2][1] = "watch" -> h[2][2] \notin DOMAIN S.wt
           [] h[2][1] \in {"clear"} -> h[2][2] \in DOMAIN S.iv
           [] OTHER -> TRUE
Step ==
    /\ Len(hist) < Depth
    /\ \E h \in {x \in Acts(Len(hist) + 1) : Ok(x)} : LET T == Apply(S, h) IN
          /\ S' = T
          /\ hist' = Append(hist, [do |-> h, log |-> T.log, now |-> T.now])
Finish ==
    /\ Len(hist) = Depth
    /\ LET e == Ending(S) IN
          /\ S' = e.st
          /\ hist' = hist \o e.steps
          /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], steps |-> hist \o e.steps]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Steady(S) /\ Armed(S) /\ Woken(S) /\ Future(S) /\ Told(S) /\ Done(S)
=============================================================================
