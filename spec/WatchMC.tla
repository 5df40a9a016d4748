------------------------------- MODULE WatchMC --------------------------------
(* Every schedule of at most MaxEdits changes, and what must follow from it.   *)
EXTENDS Watch
CONSTANTS MaxEdits, Tabs
VARIABLES S, edits
vars == <<S, edits>>
Init == S \in {InitState(o, Tabs) : o \in BOOLEAN} /\ edits = 0
Do(h) == Can(S, h) /\ S' = Apply(S, h)
Change == edits < MaxEdits /\ edits' = edits + 1 /\ \E b \in BOOLEAN : Do([k |-> "edit", bad |-> b])
Work == UNCHANGED edits /\ (Do([k |-> "finish"]) \/ Do([k |-> "optdone"]))
User == UNCHANGED edits /\ \E t \in Tabs, k \in {"open", "openslow", "connect", "dismiss", "close"} : Do([k |-> k, t |-> t])
Next == Change \/ Work \/ User
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
Sound == Good(S)
\* every change is either shown or reported
Settles == <>[](S.saw = S.src /\ (S.ph = "serving" \/ (S.ph = "failed" /\ S.bad)))
Follows == \A t \in Tabs : [](S.tabs[t].conn => <>(~S.tabs[t].conn \/ (S.ph = "serving" /\ S.tabs[t].page = S.src) \/ S.ph = "failed"))
=============================================================================
