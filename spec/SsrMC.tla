------------------------------- MODULE SsrMC --------------------------------
(* All schedules of a page: steps of the queue, answers in every order, and   *)
(* the time limit at any moment.  Whatever the schedule, a page that is not   *)
(* cut off by the limit gets the answer of the quiet schedule.                *)
EXTENDS Ssr
CONSTANT Limits       \* TRUE: the time limit may come
VARIABLES prog, s, limited

R(i) == <<<<"get", "http://up/" \o ToString(i)>>>>
Resp(i) == [status |-> 200, type |-> "application/json", body |-> CASE i = 1 -> "j1" [] i = 2 -> "j2" [] OTHER -> "j4"]
AnsOf(key) == CASE key = F!Asked(R(1)) -> Resp(1) [] key = F!Asked(R(2)) -> Resp(2) [] OTHER -> Resp(3)
Leafs(c) == {<<"set", c, "x">>, <<"panic">>, <<"fetch", c, R(1), <<>>>>, <<"cache", c, R(1), <<>>>>}
Chains(c) == {<<how, c, R(i), <<x>>>> : how \in {"fetch"}, i \in {1, 2}, x \in Leafs(c + 1)}
Nested(c) == {<<"fetch", c, R(3), <<x, y>>>> : x \in Chains(c + 10), y \in {<<"fetch", c + 20, R(2), <<>>>>}}
Ops(c) == {<<"spawn", <<x>>>> : x \in Leafs(c)} \cup Chains(c) \cup Nested(c)
Progs == {[ops |-> <<a, b>>, plain |-> pl, root |-> "html"] : a \in Ops(100), b \in Ops(200), pl \in {"none", "text"}}
         \cup {[ops |-> <<a, b, d>>, plain |-> "none", root |-> r] : a \in Chains(100), b \in Chains(200), d \in Chains(300), r \in {"html", "nobody"}}

Init == prog \in Progs /\ s = Begin(prog) /\ limited = FALSE
Turn == s.out = <<>> /\ s.q # <<>> /\ s' = Process(s, prog) /\ UNCHANGED <<prog, limited>>
Reply == s.out = <<>> /\ \E k \in Open(s) : s' = Arrive(s, k, Ans(AnsOf(k))) /\ UNCHANGED <<prog, limited>>
End == Settled(s, prog) /\ s' = Close(s, prog) /\ UNCHANGED <<prog, limited>>
Cut == Limits /\ ~limited /\ s.out = <<>> /\ s' = Limit(s) /\ limited' = TRUE /\ UNCHANGED prog
Next == Turn \/ Reply \/ End \/ Cut
Spec == Init /\ [][Next]_<<prog, s, limited>> /\ WF_<<prog, s, limited>>(Turn \/ Reply \/ End)

\* the answer of a quiet schedule
RECURSIVE Quiet(_)
Quiet(t) == IF t.out # <<>> THEN t.out
            ELSE Quiet(Idle(Arrive(t, CHOOSE k \in Open(t) : TRUE, Ans(AnsOf(CHOOSE k \in Open(t) : TRUE))), prog))
Wanted == Quiet(Idle(Begin(prog), prog))
Confluent == s.out # <<>> /\ ~limited => s.out = Wanted
OnceInv == Once(s)
CompleteInv == ~limited => Complete(s)
\* the limit is for pages which wait
Sound == s.out # <<>> /\ limited /\ s.out[1] = "html" /\ Wanted[1] = "html" => \A c \in DOMAIN s.cell :
            s.cell[c] \in {<<"loading">>, <<"=", "-">>} \/ (c \in DOMAIN Wanted[2] /\ s.cell[c] = Wanted[2][c])
Answered == <>(s.out # <<>>)
=============================================================================
