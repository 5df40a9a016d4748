------------------------------- MODULE BuildMC -------------------------------
(* All histories of Depth steps before two builds of an application.           *)
EXTENDS Build, Json
CONSTANTS Depth, Place
VARIABLES S, hist, ok
vars == <<S, hist, ok>>
P(n, u, c) == [n |-> n, u |-> u, cdylib |-> c]
B(d, pub, noopt, map) == [k |-> "build", pkg |-> "", pub |-> pub, noopt |-> noopt, map |-> map, dest |-> d]
Acts == {B("build", "/build", FALSE, FALSE), B("build", "/x", TRUE, TRUE), B("out", "/build", FALSE, TRUE), [k |-> "edit", i |-> 2, bad |-> FALSE], [k |-> "edit", i |-> 2, bad |-> TRUE],
         [k |-> "asset", i |-> 2, v |-> 2], [k |-> "vertigo"], [k |-> "target"], [k |-> "opt", v |-> "ok"], [k |-> "opt", v |-> "fail"], [k |-> "junk", d |-> "build", n |-> "sub/old.js"]}
Init == S = InitState(<<P("core", "core", FALSE), P("my-app", "my_app", TRUE)>>, Place, {"build", "out"}, {"fresh"}) /\ hist = <<>> /\ ok = TRUE
Step == /\ Len(hist) < Depth
        /\ \E h \in (IF Len(hist) = 0 \/ Len(hist) = Depth - 1 THEN {a \in Acts : a.k = "build" /\ a.dest = "build"} ELSE Acts) :
             LET T == Apply(S, h) IN S' = T /\ hist' = Append(hist, Record(h, T)) /\ ok' = GoodStep(S, h, T)
Finish == /\ Len(hist) = Depth /\ S # <<>>
          /\ PrintT("@@" \o ToJson([pkgs |-> S.pkgs, place |-> S.place, names |-> {"fresh"}, dests |-> {"build", "out"}, steps |-> hist]))
          /\ S' = <<>> /\ UNCHANGED <<hist, ok>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == ok
=============================================================================
