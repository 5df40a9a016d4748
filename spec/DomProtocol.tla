---------------------------- MODULE DomProtocol ----------------------------
(* The contract between the wasm module and the browser driver: which streams *)
(* of DOM commands are well-formed, and what they do to the node table.       *)
(*                                                                            *)
(* A state st:  k[i]  "n" not created, "e"/"t"/"c" live element/text/comment, *)
(*                    "x" removed                                             *)
(*              p[i]  parent (0: none)                                        *)
(*              cb    attached callbacks <<node, event, callback>>            *)
(*              used  all callback ids attached so far                        *)
(*              tail  a removal of this batch has been seen                   *)
(*              ref   live nodes at the last mark                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

St0(n) == [k |-> [i \in 1..n |-> "n"], p |-> [i \in 1..n |-> 0], cb |-> {}, used |-> {}, tail |-> FALSE, ref |-> {}]

Live(st) == {i \in DOMAIN st.k : st.k[i] \in {"e", "t", "c"}}
IsLive(st, i) == st.k[i] \in {"e", "t", "c"}

RECURSIVE Above(_, _, _)
\* is a an ancestor of i or i itself
Above(st, a, i) == i # 0 /\ (a = i \/ Above(st, a, st.p[i]))

\* why a command is not allowed here ("" - it is)
Why(st, c) ==
    CASE c[1] \in {"cn", "ct", "cc"} ->
           IF st.k[c[2]] # "n" THEN "a node is created twice" ELSE IF st.tail THEN "creation behind a removal" ELSE ""
      [] c[1] \in {"ut"} -> IF st.k[c[2]] # "t" THEN "text update of no live text" ELSE IF st.tail THEN "update behind a removal" ELSE ""
      [] c[1] \in {"sa", "ra"} -> IF st.k[c[2]] # "e" THEN "attribute of no live element" ELSE IF st.tail THEN "attribute behind a removal" ELSE ""
      [] c[1] = "in" ->
           IF st.tail THEN "insertion behind a removal"
           ELSE IF st.k[c[2]] # "e" THEN "insertion into no live element"
           ELSE IF ~IsLive(st, c[3]) THEN "insertion of no live node"
           ELSE IF Above(st, c[3], c[2]) THEN "insertion into itself"
           ELSE IF c[4] = 0 THEN ""
           ELSE IF ~IsLive(st, c[4]) THEN "insertion before no live node"
           ELSE IF st.p[c[4]] # c[2] THEN "insertion before a node of another parent"
           ELSE ""
      [] c[1] \in {"rn", "rt", "rc"} ->
           IF st.k[c[2]] # (CASE c[1] = "rn" -> "e" [] c[1] = "rt" -> "t" [] OTHER -> "c") THEN "removal of no live node of this kind" ELSE ""
      [] c[1] = "ca" ->
           IF st.k[c[2]] # "e" THEN "callback on no live element"
           ELSE IF c[4] \in st.used THEN "callback id used twice"
           ELSE IF st.tail THEN "callback behind a removal" ELSE ""
      [] c[1] = "cr" ->
           IF <<c[2], c[3], c[4]>> \notin st.cb THEN "detaching what is not attached"
           ELSE IF st.k[c[2]] # "e" THEN "detaching from no live element"
           ELSE IF st.tail THEN "detaching behind a removal" ELSE ""
      [] c[1] = "css" -> IF st.tail THEN "rule behind a removal" ELSE ""
      [] OTHER -> ""

Apply(st, c) ==
    CASE c[1] = "cn" -> [st EXCEPT !.k[c[2]] = "e"]
      [] c[1] = "ct" -> [st EXCEPT !.k[c[2]] = "t"]
      [] c[1] = "cc" -> [st EXCEPT !.k[c[2]] = "c"]
      [] c[1] = "in" -> [st EXCEPT !.p[c[3]] = c[2]]
      [] c[1] \in {"rn", "rt", "rc"} -> [st EXCEPT !.k[c[2]] = "x", !.p[c[2]] = 0, !.tail = TRUE]
      [] c[1] = "ca" -> [st EXCEPT !.cb = @ \cup {<<c[2], c[3], c[4]>>}, !.used = @ \cup {c[4]}]
      [] c[1] = "cr" -> [st EXCEPT !.cb = @ \ {<<c[2], c[3], c[4]>>}]
      [] c[1] = "end" -> [st EXCEPT !.tail = FALSE]
      [] c[1] = "mark" -> [st EXCEPT !.ref = Live(st)]
      [] OTHER -> st

\* what has to hold whenever a batch is complete: nothing live hangs in the air, nothing is attached to a dead element
WhyEnd(st) ==
    IF \E i \in Live(st) : i # 1 /\ st.p[i] = 0 THEN "a live node is not in the document"
    ELSE IF \E i \in Live(st) : st.p[i] # 0 /\ st.k[st.p[i]] # "e" THEN "a live node is left below a removed one"
    ELSE IF \E x \in st.cb : st.k[x[1]] # "e" THEN "a removed element keeps a callback"
    ELSE ""
\* dropping, mounting and dropping the component again leaves exactly what was there after the first time
WhyMark(st) == IF st.ref # {} /\ st.ref # Live(st) THEN "nodes of a dropped owner are left" ELSE ""

----------------------------------------------------------------------------
\* consequences (model checked in DomProtocolMC)
Forest(st) == \A i \in DOMAIN st.p : st.p[i] # 0 => ~Above(st, i, st.p[i])
Kinds(st) == \A i \in DOMAIN st.p : st.p[i] # 0 => st.k[i] \in {"e", "t", "c"} /\ st.k[st.p[i]] \in {"e", "x"}
Attached(st) == \A x \in st.cb : x[3] \in st.used /\ \A y \in st.cb : y[3] = x[3] => y = x
=============================================================================
