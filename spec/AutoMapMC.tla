----------------------------- MODULE AutoMapMC -----------------------------
(* All histories of Depth steps of two stores, of which one has a second       *)
(* handle, with a view of each; every one printed.                             *)
EXTENDS AutoMap, Json
CONSTANTS Depth
VARIABLES S, hist, done, ok
vars == <<S, hist, done, ok>>
Plan == <<<<>>, <<0>>, <<1, 0>>, <<0, 2, 1>>>>
start == << <<"map", 1, 1, Plan>>, <<"map", 2, 2, Plan>>, <<"amclone", 3, 1>> >>
Init == S = Ops(InitState, start) /\ hist = <<>> /\ done = FALSE /\ ok = TRUE
Acts ==
    { <<"amget", 1, 0>>, <<"amget", 1, 2>>, <<"amget", 2, 2>>, <<"amget", 3, 3>>, <<"amset", 3, 2, 7>>, <<"amset", 1, 0, 200>>, <<"set", 1, 2>>, <<"set", 1, 3>>,
      <<"ameq", 1, 3>>, <<"ameq", 2, 1>>, <<"amforget", 1>>, <<"tx", << <<"set", 1, 2>>, <<"amset", 3, 2, 9>>, <<"amget", 3, 2>>, <<"amset", 3, 2, 200>> >>>> }
    \cup (IF \A w \in DOMAIN S.views : S.views[w].n # 1 THEN {<<"amview", 1, 3, 1>>} ELSE {<<"amdrop", 1>>})
    \cup (IF \A w \in DOMAIN S.views : S.views[w].n # 2 THEN {<<"amview", 2, 2, 1>>} ELSE {<<"amdrop", 2>>})
Step ==
    /\ ~done /\ Len(hist) < Depth
    /\ \E o \in Acts : \E h \in {<<"app", o>>} : \E T \in {Apply(S, h)} : S' = T /\ hist' = Append(hist, Record(h, T)) /\ ok' = (ok /\ Kept(S, T))
    /\ UNCHANGED done
Finish ==
    /\ ~done /\ Len(hist) = Depth
    /\ PrintT("@@" \o ToJson([net |-> [init |-> start, show |-> <<>>], url |-> "http://localhost:1111/", steps |-> hist]))
    /\ done' = TRUE /\ UNCHANGED <<S, hist, ok>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S) /\ ok
=============================================================================
