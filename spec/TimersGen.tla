----------------------------- MODULE TimersGen -----------------------------
EXTENDS Timers, Json
CONSTANTS Steps, NV
VARIABLES S, hist, nid, ndone, id
vars == <<S, hist, nid, ndone, id>>

Chance(p) == RandomElement(1..100) <= p
D(z) == RandomElement({0, 0, 1, 3, 5, 10, 10, 20})

Init == S = InitState(NV) /\ hist = <<>> /\ nid = 1 /\ ndone = 0 /\ id = RandomElement(1..1000000000)

\* names are taken from a counter; the children of the future n are named after it
Boxes(n) == LET B == {b \in DOMAIN S.bx : b < 100} IN IF B = {} THEN 1..n ELSE B
Ivs(n) == IF DOMAIN S.iv = {} THEN 1..n ELSE DOMAIN S.iv
ROp(n, d) ==
    LET r == RandomElement(1..100) IN
    IF r <= 25 THEN <<"log", RandomElement(1..99)>>
    ELSE IF r <= 55 THEN <<"set", RandomElement(1..NV), RandomElement(0..3)>>
    ELSE IF r <= 68 THEN <<"clear", RandomElement(Ivs(n))>>
    ELSE IF r <= 85 THEN <<"send", RandomElement(Boxes(n)), RandomElement(1..9)>>
    ELSE <<"log", 0>>
ROps(n) == LET k == RandomElement({0, 1, 1, 2, 3}) IN TLCEval([i \in 1..k |-> ROp(n, i)])

RECURSIVE RProg(_, _, _)
RProg(n, depth, base) ==
    LET k == RandomElement({1, 2, 3, 4}) IN
    TLCEval([i \in 1..k |->
        LET r == RandomElement(1..100) IN
        IF r <= 30 THEN <<"sleep", D(i)>>
        ELSE IF r <= 42 THEN <<"join", D(i), D(i)>>
        ELSE IF r <= 56 THEN <<"recv", RandomElement(Boxes(n))>>
        ELSE IF r <= 64 /\ depth > 0 THEN <<"spawn", base * 10 + i, RProg(n, depth - 1, base * 10 + i)>>
        ELSE IF r <= 70 /\ depth > 0 THEN <<"interval", base * 10 + i, D(i), ROps(n)>>
        ELSE ROp(n, i)])

RHost(n) ==
    LET r == RandomElement(1..100) IN
    IF r <= 22 THEN <<"app", <<"spawn", n, RProg(n, 2, 1000 * n)>>>>
    ELSE IF r <= 34 THEN <<"app", <<"interval", n, D(n), ROps(n)>>>>
    ELSE IF r <= 42 THEN <<"app", <<"box", n>>>>
    ELSE IF r <= 50 /\ Cardinality(DOMAIN S.wt) < 2 THEN <<"app", <<"watch", n, TLCEval([i \in 1..RandomElement(1..2) |-> RandomElement(1..NV)])>>>>
    ELSE IF r <= 54 THEN <<"app", <<"unsub", RandomElement(1..n)>>>>
    ELSE IF r <= 60 THEN <<"app", <<"tx", ROps(n)>>>>
    ELSE IF r <= 72 THEN <<"app", ROp(n, 0)>>
    ELSE IF r <= 88 THEN <<"timer">>
    ELSE <<"wait", RandomElement({0, 1, 4, 10, 25})>>

Step ==
    /\ ndone < Steps
    /\ \E h \in {RHost(nid + 0 * ndone)} : \E T \in {Apply(S, h)} :
          /\ S' = T
          /\ hist' = Append(hist, [do |-> h, log |-> T.log, now |-> T.now])
          /\ nid' = nid + 1
    /\ ndone' = ndone + 1 /\ UNCHANGED id

Finish ==
    /\ ndone = Steps
    /\ \E e \in {Ending(S)} :
          /\ S' = e.st
          /\ PrintT("@@" \o ToJson([net |-> [init |-> <<>>, show |-> <<>>], steps |-> hist \o e.steps]))
    /\ ndone' = Steps + 1 /\ UNCHANGED <<hist, nid, id>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Good == Steady(S) /\ Armed(S) /\ Woken(S) /\ Future(S) /\ Told(S) /\ Done(S)
=============================================================================
