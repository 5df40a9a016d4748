------------------------------ MODULE IncludeGen ------------------------------
(* include_static!: files of a package from one compilation to the next (with  *)
(* the real compiler).  Its file is named by the name and the content.         *)
EXTENDS Build, Json
CONSTANT Steps
VARIABLES S, hist
vars == <<S, hist>>
Pick(x) == RandomElement(x)
Files == {"a.txt", "deep/a.txt", "deep/er/a.txt", "logo.min.svg", "deep/logo.min.svg", "x_y-z.css"}
Texts == {"one", "two", "{}", "<p>&</p>", "a longer text with some blanks"}
Content(n) == TLCEval([f \in Files |-> Pick({t \in Texts : n >= 0})])
Init == S = <<>> /\ hist = <<>>
\* what the module says: address of the file -> its content
Named1(m) == {[url |-> m.pub, file |-> [s |-> f, e |-> "", h |-> TRUE, x |-> m.files[f]]] : f \in DOMAIN m.files}
Step == /\ Len(hist) < Steps
        /\ \E fs \in {Content(Len(hist))} : \E p \in {Pick({x \in {"/build", "/x/y", ""} : Len(hist) >= 0})} :
             \* only one file of an earlier compilation has changed
             \E one \in {Pick({f \in Files : Len(hist) >= 0})} :
             LET m == [pub |-> IF hist = <<>> \/ Len(hist) % 2 = 0 THEN p ELSE S.pub, files |-> IF hist = <<>> \/ Len(hist) % 3 = 0 THEN fs ELSE [S.files EXCEPT ![one] = fs[one]]] IN
             S' = m /\ hist' = Append(hist, m)
Finish == /\ Len(hist) = Steps /\ S # <<>>
          /\ PrintT("@@" \o ToJson([steps |-> hist]))
          /\ S' = <<>> /\ UNCHANGED hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* one address never means two contents
Good == S # <<>> => \A x, y \in Named1(S) : (x.url = y.url /\ x.file = y.file) => x.file.x = y.file.x
=============================================================================
