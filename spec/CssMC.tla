-------------------------------- MODULE CssMC --------------------------------
(* All styles of at most Len items out of a menu, in both notations, in every  *)
(* state and for every set of queries.                                         *)
EXTENDS Css, Json
CONSTANTS Depth
VARIABLES it, S, hist, pend
vars == <<it, S, hist, pend>>
W(x) == <<[k |-> "w", x |-> x]>>
D(p, x) == [k |-> "d", p |-> p, v |-> W(x), f |-> 0]
V(p) == [k |-> "d", p |-> p, v |-> <<[k |-> "n", e |-> [a |-> 1, v |-> 1, m |-> 7], f |-> 0], [k |-> "w", x |-> "px"]>>, f |-> 1]
On(o, b) == [k |-> "on", on |-> o, b |-> b, f |-> 2]
At(q, b) == [k |-> "at", q |-> q, b |-> b, f |-> 3]
Menu == <<D("color", "red"), V("width"), On("hover", <<D("color", "blue"), V("width")>>), At(1, <<D("color", "green")>>),
          At(2, <<V("width"), On("hover", <<D("color", "white")>>)>>), At(1, <<On("focus", <<D("color", "black")>>), D("width", "1px")>>),
          On("hbefore", <<D("color", "pink")>>), [k |-> "an", pre |-> W("1s"), fr |-> <<[at |-> "0%", b |-> <<D("color", "cyan")>>]>>, f |-> 4]>>
Once(s, x) == \A i \in DOMAIN s : s[i] # x
Init == it = <<>> /\ S = InitState /\ hist = <<>> /\ pend = TRUE
Add == /\ Len(it) < Depth /\ hist = <<>> /\ pend
       /\ \E i \in DOMAIN Menu : Once(it, Menu[i]) /\ it' = Append(it, Menu[i])
       /\ UNCHANGED <<S, hist, pend>>
Styles == <<[form |-> "macro", it |-> it, f |-> 0], [form |-> "text", it |-> it, f |-> 1]>>
\* a walk through all the environments which make a difference
Walk == << <<"start">>, <<"st", {"hover"}>>, <<"ms", {1}>>, <<"st", {"hover", "focus"}>>, <<"ms", {1, 2}>>, <<"st", {}>>, <<"tx", <<<<1, 2>>>>>>, <<"ms", {2}>>,
           <<"st", {"focus"}>>, <<"ms", {1}>>, <<"ms", {}>>, <<"tx", <<<<1, 0>>>>>>, <<"ms", {2}>>, <<"st", {"hover"}>> >>
Step == /\ it # <<>> /\ Len(hist) < Len(Walk) /\ pend
        /\ LET h == Walk[Len(hist) + 1] T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(Styles, h, T))
        /\ UNCHANGED <<it, pend>>
Finish == /\ Len(hist) = Len(Walk) /\ pend /\ PrintT("@@" \o ToJson([styles |-> Styles, steps |-> hist])) /\ pend' = FALSE /\ UNCHANGED <<it, S, hist>>
Next == Add \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
View == <<it, Len(hist), pend>>
Good == Good1(<<[form |-> "macro", it |-> it, f |-> 0]>>, S)
==============================================================================
