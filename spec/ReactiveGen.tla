---------------------------- MODULE ReactiveGen -----------------------------
(* Random behaviours of Reactive (tlc -simulate), each written out with what  *)
(* every call must make observable.  A behaviour first builds a program, then *)
(* performs Depth public calls.                                              *)
EXTENDS Reactive, Json
CONSTANTS Nodes,    \* number of nodes
          Depth,    \* number of calls
          MaxSubs,  \* subscriber ids
          Profile   \* "mixed" | "conn" | "tx"

VARIABLES prog, S, hist, nsub, ndone, id

vars == <<prog, S, hist, nsub, ndone, id>>

Rnd(X) == {RandomElement(X)}
Chance(p) == RandomElement(1..100) <= p

Init == prog = <<>> /\ S = <<>> /\ hist = <<>> /\ nsub = 0 /\ ndone = 0 /\ id = RandomElement(1..1000000000)

Building == Len(prog) < Nodes

NVals == 3

\* biased to recent nodes so that graphs get deep
Pick(n) == IF n > 2 /\ Chance(60) THEN RandomElement({m \in 1..n : m + 3 > n}) ELSE RandomElement(1..n)
\* connected values which push while being connected may only be observed directly
Readable(P) == {m \in DOMAIN P : P[m].kind # "conn" \/ P[m].sync < 0}
PickR(P) == LET R == Readable(P) IN
            LET rec == {m \in R : m + 3 > Len(P)} IN
            IF rec # {} /\ Chance(60) THEN RandomElement(rec) ELSE RandomElement(R)

RndList(P) == \* 0..3 nodes, the same node may occur twice
    LET n == RandomElement({0, 1, 1, 2, 2, 3}) IN [i \in 1..n |-> PickR(P)]
RndList1(P) == LET n == RandomElement({1, 2, 3}) IN [i \in 1..n |-> PickR(P)]

RndComp(P) ==
    LET api == RandomElement({"from", "from2", "from3", "from4", "map", "tmp", "auto"})
        mod == RandomElement({2, 3, 5}) IN
    IF api = "map" THEN [kind |-> "comp", c |-> 0, a |-> <<PickR(P)>>, b |-> <<>>, k |-> RandomElement(0..1), mod |-> mod, api |-> "map"]
    ELSE IF Chance(60)
    THEN [kind |-> "comp", c |-> PickR(P), a |-> RndList(P), b |-> RndList(P), k |-> RandomElement(0..1), mod |-> mod, api |-> api]
    ELSE [kind |-> "comp", c |-> 0, a |-> RndList1(P), b |-> <<>>, k |-> RandomElement(0..1), mod |-> mod, api |-> api]

ConnChance == IF Profile = "conn" THEN 90 ELSE 30

Build ==
    /\ Building
    /\ LET n == Len(prog) + 1 IN
       \E d \in {IF n <= NVals
                 THEN IF n > 1 /\ Chance(ConnChance)
                      THEN [kind |-> "conn", init |-> RandomElement(0..2), sync |-> IF n = NVals /\ Chance(30) THEN RandomElement(0..3) ELSE -1]
                      ELSE [kind |-> "val", init |-> RandomElement(0..2)]
                 ELSE RndComp(prog)} :
         /\ prog' = Append(prog, d)
         /\ S' = IF n = Nodes THEN InitState(Append(prog, d)) ELSE S
    /\ UNCHANGED <<hist, nsub, ndone, id>>

Vals == {m \in DOMAIN prog : prog[m].kind = "val"}
Live == DOMAIN S.subs

\* a node worth observing: mostly the late ones
RndNode == IF Chance(60) THEN RandomElement({m \in DOMAIN prog : m + 4 > Nodes}) ELSE RandomElement(DOMAIN prog)

TxChance == IF Profile = "tx" THEN 30 ELSE 14

RndOp ==
    LET r == RandomElement(1..100) IN
    IF r <= TxChance THEN (IF S.level > 0 /\ (S.level >= MaxLevel \/ Chance(50)) THEN <<"end">> ELSE <<"begin">>)
    ELSE IF r <= 38 THEN
        (IF nsub < MaxSubs /\ (Live = {} \/ Chance(60))
         THEN <<"sub", nsub + 1, RndNode, IF Chance(25) THEN "all" ELSE "sub">>
         ELSE IF Live # {} THEN <<"drop", RandomElement(Live)>> ELSE <<"read", RndNode>>)
    ELSE IF r <= 42 THEN (IF S.hooks = {} \/ (S.hooks # {1, 2, 3} /\ Chance(50))
                         THEN <<"hook", RandomElement({1, 2, 3} \ S.hooks)>>
                         ELSE <<"unhook", RandomElement(S.hooks)>>)
    ELSE IF r <= 55 THEN <<"read", RndNode>>
    ELSE IF r <= 68 /\ S.conn # {} THEN <<"push", RandomElement(S.conn), RandomElement(0..3)>>
    ELSE LET w == RandomElement(1..5) IN
         IF w <= 3 THEN <<"set", RandomElement(Vals), RandomElement(0..3)>>
         ELSE IF w = 4 THEN <<"cset", RandomElement(Vals), RandomElement(0..3)>>
         ELSE <<"chg", RandomElement(Vals), RandomElement(1..3)>>

\* connected values: open because of a subscriber / not touched any more / kept open by earlier plain reads
ConnView(T) == [n \in {m \in DOMAIN prog : prog[m].kind = "conn"} |->
    IF n \in T.conn THEN (IF n \in Observed(prog, T) THEN "open" ELSE "any") ELSE "closed"]

Record(op, T) ==
    hist' = Append(hist, [op |-> op, log |-> T.log,
                          conn |-> {<<n, ConnView(T)[n]>> : n \in DOMAIN ConnView(T)}])

Step ==
    /\ ~Building /\ ndone < Depth
    /\ \E op \in {RndOp} :
        \E T \in {Do(prog, S, op)} :
             /\ S' = T /\ Record(op, T)
             /\ nsub' = IF op[1] = "sub" THEN nsub + 1 ELSE nsub
             /\ ndone' = ndone + 1 /\ UNCHANGED <<prog, id>>

\* close what is open, so that the last transaction is judged too
CloseAll ==
    /\ ~Building /\ ndone = Depth /\ S.level > 0
    /\ \E T \in {Do(prog, S, <<"end">>)} : S' = T /\ Record(<<"end">>, T)
    /\ UNCHANGED <<prog, nsub, ndone, id>>

Emit ==
    /\ ~Building /\ ndone = Depth /\ S.level = 0
    /\ PrintT("@@" \o ToJson([prog |-> prog, hist |-> hist]))
    /\ ndone' = Depth + 1
    /\ UNCHANGED <<prog, S, hist, nsub, id>>

Next == Build \/ Step \/ CloseAll \/ Emit
Spec == Init /\ [][Next]_vars

Good == ~Building /\ S # <<>> => /\ Consistent(prog, S) /\ Delivered(prog, S) /\ Scheduled(prog, S)
                                 /\ Connected(prog, S) /\ Linked(prog, S) /\ NoGhosts(S)
=============================================================================
