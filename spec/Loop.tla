------------------------------- MODULE Loop --------------------------------
(* The browser's timers: a sequence of pending timers in the order of their   *)
(* creation; the next one to fire is the earliest, and of equal ones the      *)
(* first created.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NextTimer(ts) == CHOOSE i \in DOMAIN ts : \A j \in DOMAIN ts : ts[i].at < ts[j].at \/ (ts[i].at = ts[j].at /\ i <= j)
Without(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
TimersNot(ts, P(_)) == SelectSeq(ts, LAMBDA t : ~P(t))
Later(x, y) == IF x > y THEN x ELSE y
SumSeq(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i] IN f[Len(q)]
=============================================================================
