--------------------------- MODULE DomProtocolMC ---------------------------
(* All streams the protocol allows, over few nodes and callbacks.             *)
EXTENDS DomProtocol
CONSTANTS N, Cbs
VARIABLES st, mid
Cmds == ({"cn", "ct", "cc", "ut", "sa", "rn", "rt", "rc"} \X (1..N))
        \cup ({"in"} \X (1..N) \X (1..N) \X (0..N)) \cup ({"ca", "cr"} \X (1..N) \X {1} \X (1..Cbs))
Init == st = St0(N) /\ mid = FALSE
Do == \E c \in Cmds : Why(st, c) = "" /\ st' = Apply(st, c) /\ mid' = TRUE
End == mid /\ WhyEnd(st) = "" /\ st' = Apply(st, <<"end">>) /\ mid' = FALSE
Next == Do \/ End
Spec == Init /\ [][Next]_<<st, mid>>
Inv == Forest(st) /\ Kinds(st) /\ Attached(st)
\* when a batch is complete every live node but the root is below the root
Rooted == ~mid => \A i \in Live(st) : i = 1 \/ (st.k[1] = "e" => Above(st, 1, i)) \/ st.k[1] # "e"
=============================================================================
