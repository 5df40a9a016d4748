----------------------------- MODULE ReactiveMC -----------------------------
(* Exhaustive exploration of Reactive for a family of small programs.         *)
EXTENDS Reactive
CONSTANTS NSubs, Shapes

VARIABLES prog, S, nextSub

V(i) == [kind |-> "val", init |-> i]
K(i) == [kind |-> "conn", init |-> i, sync |-> -1]
Ks(i, s) == [kind |-> "conn", init |-> i, sync |-> s]
F(c, a, b) == [kind |-> "comp", c |-> c, a |-> a, b |-> b, k |-> 0, mod |-> 2, api |-> "from"]

\* lists over nodes
Lists(X) == {<<>>} \union {<<x>> : x \in X} \union {<<x, y>> : x, y \in X}
ShortLists(X) == {<<>>} \union {<<x>> : x \in X}

Programs ==
    CASE Shapes = "dyn2" ->   \* two values, every pair of computeds with a condition
           { <<V(1), V(0), F(c3, a3, b3), F(c4, a4, b4)>> :
               c3 \in {0, 1}, a3 \in ShortLists(1..2) \ {<<>>}, b3 \in ShortLists(1..2),
               c4 \in {0, 1}, a4 \in Lists(2..3) \ {<<>>}, b4 \in ShortLists(2..3) }
      [] Shapes = "dyn3" ->   \* three computeds; contains the detached-parent program
           { <<V(1), V(0), F(0, <<2>>, <<>>), F(1, a4, b4), F(1, a5, b5)>> :
               a4 \in ShortLists(2..3), b4 \in ShortLists(2..3),
               a5 \in ShortLists({3, 4}) \ {<<>>}, b5 \in {<<>>, <<3>>, <<4>>, <<3, 4>>, <<4, 3>>} }
      [] Shapes = "conn" ->   \* connected values behind dynamic dependencies
           { <<V(1), K(0), F(c3, a3, b3), F(1, a4, b4)>> :
               c3 \in {0, 1}, a3 \in ShortLists(1..2) \ {<<>>}, b3 \in ShortLists(1..2),
               a4 \in ShortLists(2..3) \ {<<>>}, b4 \in ShortLists(2..3) }
      [] Shapes = "sync" -> { <<V(1), Ks(0, 1), F(0, <<1>>, <<>>)>> }
      [] Shapes = "detach" -> \* the program which broke the code as found
           { <<V(1), V(0), F(0, <<2>>, <<>>), F(1, <<3>>, <<>>), F(1, <<4>>, <<3, 4>>)>> }

Subscribable(P) == DOMAIN P

Init == /\ prog \in Programs
        /\ S = InitState(prog)
        /\ nextSub = 1

LiveSubs == DOMAIN S.subs

Ops ==
    {<<"set", n, x>> : n \in {m \in DOMAIN prog : prog[m].kind = "val"}, x \in 0..1}
    \union {<<"cset", n, x>> : n \in {m \in DOMAIN prog : prog[m].kind = "val"}, x \in 0..1}
    \union {<<"push", n, x>> : n \in S.conn, x \in 0..1}
    \union {<<"read", n>> : n \in DOMAIN prog}
    \union {<<"drop", s>> : s \in LiveSubs}
    \union (IF S.level < MaxLevel THEN {<<"begin">>} ELSE {})
    \union (IF S.level > 0 THEN {<<"end">>} ELSE {})

\* subscriber ids are reused smallest-first: the id order is the creation order only relative to
\* live subscribers, so both relative orders of two subscribers are explored
FreeSub == {s \in 1..NSubs : s \notin LiveSubs}

Next ==
    /\ prog' = prog /\ nextSub' = nextSub
    /\ \/ \E op \in Ops : S' = Do(prog, S, op)
       \/ \E s \in FreeSub, n \in Subscribable(prog), k \in {"sub", "all"} : S' = Do(prog, S, <<"sub", s, n, k>>)

Spec == Init /\ [][Next]_<<prog, S, nextSub>>
View == <<prog, [S EXCEPT !.log = <<>>]>>

InvConsistent == Consistent(prog, S)
InvDelivered  == Delivered(prog, S)
InvScheduled  == Scheduled(prog, S)
InvConnected  == Connected(prog, S)
InvLinked     == Linked(prog, S)
InvNoGhosts   == NoGhosts(S)
\* within a call: nobody is called twice, nobody dropped is called, hooks come last
InvLog        == LogSane(S)

\* R02 as an action property: a call delivers to s iff its value differs from the last one given
DeliverOnce == [][ \A s \in LiveSubs \intersect DOMAIN S'.subs :
      LET cbs == {i \in DOMAIN S'.log : S'.log[i][1] = "cb" /\ S'.log[i][2] = s}
          x == S.subs[s]
      IN x.kind = "sub" /\ x = [S'.subs[s] EXCEPT !.last = x.last]
           => Cardinality(cbs) = (IF S'.subs[s].last = x.last THEN 0 ELSE 1) ]_<<prog, S, nextSub>>
\* R03: while a transaction stays open nothing is delivered to existing subscribers, no hook runs
Quiet == [][ S.level > 0 /\ S'.level > 0 =>
      \A i \in DOMAIN S'.log : /\ S'.log[i][1] # "hook"
                               /\ S'.log[i][1] = "cb" => S'.log[i][2] \notin LiveSubs \/ S.subs[S'.log[i][2]].last = NONE ]_<<prog, S, nextSub>>
=============================================================================
