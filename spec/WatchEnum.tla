------------------------------ MODULE WatchEnum -------------------------------
(* All histories of Depth steps with one page, up to their rest.               *)
EXTENDS Watch, Json
CONSTANTS Depth, Opt
VARIABLES S, hist, ph
vars == <<S, hist, ph>>
Acts == {[k |-> "edit", how |-> "write", bad |-> b] : b \in BOOLEAN} \cup {[k |-> k] : k \in {"finish", "optdone"}} \cup {[k |-> k, t |-> "a"] : k \in {"open", "openslow", "connect"}}
Init == S = InitState(Opt, {"a"}) /\ hist = <<>> /\ ph = "go"
Do(h) == LET T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(h, T))
Step == /\ ph = "go" /\ Len(hist) < Depth
        \* nothing happens before the first build has ended
        /\ \E h \in Acts : Can(S, h) /\ (Len(hist) = 0 => h.k = "finish") /\ Do(h)
        /\ UNCHANGED ph
Rest == ph = "go" /\ Len(hist) >= Depth /\ Busy(S) /\ Do([k |-> IF S.ph = "opt" THEN "optdone" ELSE "finish"]) /\ UNCHANGED ph
End0 == /\ ph = "go" /\ Len(hist) >= Depth /\ ~Busy(S)
        /\ PrintT("@@" \o ToJson([conf |-> [layout |-> "single", named |-> FALSE, late |-> TRUE], opt |-> S.opt, steps |-> hist]))
        /\ ph' = "end" /\ UNCHANGED <<S, hist>>
Next == Step \/ Rest \/ End0
Spec == Init /\ [][Next]_vars
Sound == Good(S)
=============================================================================
