---------------------------- MODULE WebsocketMC -----------------------------
(* All histories of Depth steps with two handles, every one printed.          *)
EXTENDS Websocket, Json
CONSTANTS Depth, Ops1
VARIABLES S, hist
vars == <<S, hist>>
\* what the first handle does when it hears of a connection and of a message; the second is silent
OnOpen == CASE Ops1 = 1 -> <<<<"wssend", 1, "hello">>>> [] Ops1 = 2 -> <<<<"wssend", 2, "other">>>> [] Ops1 = 3 -> <<<<"wsdrop", 1>>>>
OnMsg == CASE Ops1 = 1 -> <<<<"wsdrop", 1>>, <<"wssend", 1, "late">>>> [] Ops1 = 2 -> <<<<"wsdrop", 2>>>> [] Ops1 = 3 -> <<>>
Init == S = Op(InitState, <<"ws", 1, "ws://h/1", OnOpen, OnMsg>>) /\ hist = <<>>
First == <<"app", <<"ws", 1, "ws://h/1", OnOpen, OnMsg>>>>
Acts(n) ==
    { <<"app", <<"ws", 2, "ws://h/2", <<>>, <<>>>>>>, <<"wait", 1>>, <<"wait", 2999>>, <<"wait", 3000>>, <<"wait", 5000>> }
    \cup { <<"app", <<"wssend", k, "m">>>> : k \in {x \in DOMAIN S.h : S.h[x].st # "gone"} }
    \cup { <<"app", <<"wsdrop", k>>>> : k \in {x \in DOMAIN S.h : S.h[x].st # "gone"} }
    \cup { <<"sock", k, e, "m">> : k \in DOMAIN S.h, e \in {"open", "msg", "close", "error"} }
Ok(h) == CASE h[1] = "sock" -> Can(S, h) [] h[1] = "app" -> h[2][1] # "ws" \/ 2 \notin DOMAIN S.h [] OTHER -> TRUE
Step ==
    /\ Len(hist) < Depth
    /\ IF hist = <<>> THEN S' = S /\ hist' = <<Record(First, S)>>
       ELSE \E h \in {x \in Acts(Len(hist)) : Ok(x)} : LET T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(h, T))
Finish ==
    /\ Len(hist) = Depth
    /\ LET T == Apply(S, <<"wait", 20000>>) hs == Append(hist, Record(<<"wait", 20000>>, T)) IN
          /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], steps |-> hs]))
          /\ S' = T /\ hist' = hs
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S, hist)
=============================================================================
