----------------------------- MODULE EnvironMC -----------------------------
(* All histories of Depth steps of two instants and a clock which is set; and  *)
(* every range of chance, every zone, every level of the log.                  *)
EXTENDS Environ, Json
CONSTANTS Depth
VARIABLES S, hist, done, ok
vars == <<S, hist, done, ok>>
Env == ("A" :> "~U~") @@ ("LONG_name.x" :> "") @@ ("ZZ" :> "zz")
Init == S = InitState(Env) /\ hist = <<>> /\ done = FALSE /\ ok = TRUE
Emit(hs) == PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], env |-> Env, url |-> "http://localhost:1111/", steps |-> hs]))
Then(x, h) == LET T == Apply(x.s, h) IN [s |-> T, hs |-> Append(x.hs, Record(h, T)), ok |-> x.ok /\ Forward(x.s, T, h)]
RECURSIVE Run(_, _)
Run(x, q) == IF q = <<>> THEN x ELSE Run(Then(x, Head(q)), Tail(q))
Reads == <<"app", <<"tx", << <<"iread", 1>>, <<"iread", 2>>, <<"ieq", 1, 2>>, <<"utc">> >>>>>>
Singles == {Rand(r) : r \in DOMAIN Ranges} \cup {<<"choose", n>> : n \in 0..6} \cup {<<"env", n>> : n \in DOMAIN Env \cup {"none"}} \cup {<<"side">>}
           \cup {<<"say", l, m>> : l \in {"trace", "debug", "info", "warn", "error"}, m \in {"", "x", "~U~", "a %c b"}}
Single ==
    /\ hist = <<>> /\ ~done
    /\ \/ \E o \in Singles : Emit(Run([s |-> S, hs |-> <<>>, ok |-> TRUE], << <<"app", o>>, <<"app", <<"tx", <<o, o>>>>>>, <<"app", o>> >>).hs)
       \/ \E z \in {0, -60, 300, -330, 570, -840, 720, -345, 1} : Emit(Run([s |-> S, hs |-> <<>>, ok |-> TRUE], << <<"zone", z>>, <<"app", <<"tz">>>>, <<"zone", 0>>, <<"app", <<"tz">>>> >>).hs)
    /\ done' = TRUE /\ UNCHANGED <<S, hist, ok>>
Acts ==
    { <<"app", <<"iset", 1>>>>, <<"app", <<"iset", 2>>>>, <<"app", <<"iadd", 2, 1, 1001000>>>>, <<"app", <<"iadd", 1, 1, 999>>>>, <<"app", <<"irefresh", 1, 2>>>>,
      <<"wait", 1>>, <<"wait", 1001>>, <<"clock", -1>>, <<"clock", -5000>>, <<"clock", 1999>> }
Step ==
    /\ ~done /\ Len(hist) < 2 * Depth
    /\ \E h \in Acts : LET R == Run([s |-> S, hs |-> hist, ok |-> ok], <<h, Reads>>) IN S' = R.s /\ hist' = R.hs /\ ok' = R.ok
    /\ UNCHANGED done
Finish == ~done /\ Len(hist) = 2 * Depth /\ Emit(hist) /\ done' = TRUE /\ UNCHANGED <<S, hist, ok>>
Next == Single \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Good1(S) /\ ok
=============================================================================
