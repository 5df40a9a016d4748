------------------------------ MODULE DomTrace ------------------------------
(* Checks recorded command streams against DomProtocol: one line of the file  *)
(* per page, [n |-> number of nodes, c |-> commands].                         *)
EXTENDS DomProtocol, Json
CONSTANT File
VARIABLES t, j, st
Traces == ndJsonDeserialize(File)
vars == <<t, j, st>>
Report(why) == PrintT("@@" \o ToJson([trace |-> t, at |-> j, why |-> why, cmd |-> Traces[t].c[j]]))
Init == t = 1 /\ j = 1 /\ st = St0(Traces[1].n)
NextTrace == t' = t + 1 /\ j' = 1 /\ st' = IF t < Len(Traces) THEN St0(Traces[t + 1].n) ELSE St0(0)
Step ==
    /\ t <= Len(Traces) /\ j <= Len(Traces[t].c)
    /\ LET c == Traces[t].c[j]
           w == IF c[1] = "end" THEN WhyEnd(st) ELSE IF c[1] = "mark" THEN WhyMark(st) ELSE Why(st, c) IN
       IF w = "" THEN t' = t /\ j' = j + 1 /\ st' = Apply(st, c)
       ELSE Report(w) /\ NextTrace
Done == t <= Len(Traces) /\ j > Len(Traces[t].c) /\ NextTrace
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* the walk has reached the end of the file exactly once (checked by the number of distinct states)
Inv == Forest(st) /\ Attached(st)
=============================================================================
