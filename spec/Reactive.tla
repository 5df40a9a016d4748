------------------------------ MODULE Reactive ------------------------------
(* The reactive graph of vertigo: Values, connected Values (with_connect),   *)
(* Computeds with dynamic dependencies, subscribers, nested transactions and *)
(* after-transaction hooks.                                                  *)
(*                                                                           *)
(* The graph is modelled at the grain of the implementation: the edges       *)
(* "parent -> client", the memo of every computed, the cascade which         *)
(* detaches computeds nobody uses, the clients collected during a            *)
(* transaction.  The properties are stated against the denotation of the     *)
(* graph (Denote), which knows nothing of caches and edges.                  *)
(*                                                                           *)
(* One atomic action per public API call: the library is single threaded and *)
(* every call is a linearization point.  The exception are transactions,     *)
(* which are opened and closed by separate actions.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Eager,      \* TRUE: an edge exists from the moment of reading (the code as repaired);
                \* FALSE: edges are added after the evaluation (the code as found)
    MaxLevel    \* bound on the nesting of transactions

NONE == -1
Src(n) == 1000 + n          \* the inner Value of a connected value n
IsSrc(n) == n > 1000

(* A node of the program is a record                                          *)
(*   [kind |-> "val",  init]                                                  *)
(*   [kind |-> "conn", init, sync]    sync >= 0: pushed while being connected *)
(*   [kind |-> "comp", c, a, b, k, mod, api]                                  *)
(* The value of a "comp" is (k + sum of list) % mod, where list is a if c = 0 *)
(* or the value of c is positive, else b.                                     *)

SumSeq(s) == LET RECURSIVE R(_)
                 R(i) == IF i = 0 THEN 0 ELSE s[i] + R(i-1)
             IN R(Len(s))

Range(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* Denotation: what a node is worth, given only the contents of the Values.   *)
RECURSIVE Denote(_, _, _)
Denote(P, val, n) ==
    LET d == P[n] IN
    CASE d.kind = "val"  -> val[n]
      [] d.kind = "conn" -> val[n]
      [] d.kind = "comp" ->
           LET list == IF d.c = 0 \/ Denote(P, val, d.c) > 0 THEN d.a ELSE d.b
           IN (d.k + SumSeq([i \in DOMAIN list |-> Denote(P, val, list[i])])) % d.mod

(* The Values a node currently depends on. *)
RECURSIVE Roots(_, _, _)
Roots(P, val, n) ==
    LET d == P[n] IN
    IF d.kind \in {"val", "conn"} THEN {n}
    ELSE LET list == IF d.c = 0 \/ Denote(P, val, d.c) > 0 THEN d.a ELSE d.b
         IN (IF d.c = 0 THEN {} ELSE Roots(P, val, d.c))
            \union UNION {Roots(P, val, list[i]) : i \in DOMAIN list}

-----------------------------------------------------------------------------
(* The state S of the graph is a record:                                      *)
(*   val    contents of the Values (incl. the source of a connected value)    *)
(*   memo   memo of every computed or NONE                                    *)
(*   edges  set of <<parent, client>>; client -s stands for subscriber s      *)
(*   conn   connected values whose connection is open                         *)
(*   subs   subscriber id -> [node, kind, last]                               *)
(*   hooks  set of after-transaction hooks                                    *)
(*   level  nesting of open transactions; pend  subscribers to be refreshed   *)
(*   log    what the current call made observable                             *)
InitState(P) ==
    [ val   |-> [n \in DOMAIN P |-> IF P[n].kind = "comp" THEN 0 ELSE P[n].init],
      memo  |-> [n \in DOMAIN P |-> NONE],
      edges |-> {},
      conn  |-> {},
      subs  |-> <<>>,
      hooks |-> {},
      level |-> 0,
      pend  |-> {},
      log   |-> <<>> ]

Log(S, e) == [S EXCEPT !.log = Append(@, e)]

Clients(S, p) == {e[2] : e \in {x \in S.edges : x[1] = p}}
Parents(S, c) == {e[1] : e \in {x \in S.edges : x[2] = c}}

RECURSIVE Closure(_, _, _)
Closure(S, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET nxt == UNION {Clients(S, n) : n \in todo} \ seen
         IN Closure(S, nxt, seen \union nxt)
Deps(S, n) == Closure(S, {n}, {})

(* Remove edges; a parent left without clients is detached from its own       *)
(* parents in turn.  Everything touched and inactive afterwards is cleared.   *)
RECURSIVE CascadeR(_, _, _)
CascadeR(edges, rem, touched) ==
    IF rem = {} THEN <<edges, touched>>
    ELSE LET e2 == edges \ rem
             ps == {e[1] : e \in rem}
             dead == {p \in ps : \A e \in e2 : e[1] # p}
         IN CascadeR(e2, {e \in e2 : e[2] \in dead}, touched \union ps)

SeqOfSet(X) == LET RECURSIVE R(_)
                   R(Y) == IF Y = {} THEN <<>>
                           ELSE LET m == CHOOSE x \in Y : \A y \in Y : x <= y
                                IN <<m>> \o R(Y \ {m})
               IN R(X)

(* Apply the inactive consequences: clear memos, release connections. *)
Deactivate(S, touched) ==
    LET dead == {p \in touched : Clients(S, p) = {}}
        memo2 == [n \in DOMAIN S.memo |-> IF n \in dead THEN NONE ELSE S.memo[n]]
        closed == {n \in S.conn : Src(n) \in dead}
        L == SeqOfSet(closed)
    IN [S EXCEPT !.memo = memo2, !.conn = @ \ closed,
                 !.log = @ \o [i \in DOMAIN L |-> <<"close", L[i]>>]]

RemoveEdges(S, rem, self) ==
    LET r == CascadeR(S.edges, rem, {})
    IN Deactivate([S EXCEPT !.edges = r[1]], r[2] \union self)

(* A Value has been set: forget the memos, collect the subscribers. *)
ReportSet(S, n) ==
    LET d == Deps(S, n)
    IN [S EXCEPT !.memo = [m \in DOMAIN S.memo |-> IF m \in d THEN NONE ELSE S.memo[m]],
                 !.pend = @ \union {-c : c \in {x \in d : x < 0}}]

RECURSIVE HookLog(_)
HookLog(H) == LET L == SeqOfSet(H) IN [i \in DOMAIN L |-> <<"hook", L[i]>>]

(* Open the connection of a connected value, if it is not open. *)
OpenConn(P, S, n) ==
    IF n \in S.conn THEN S
    ELSE LET S1 == [Log(S, <<"open", n>>) EXCEPT !.conn = @ \union {n}]
         IN IF P[n].sync < 0 THEN S1
            ELSE LET S2 == ReportSet([S1 EXCEPT !.val[n] = P[n].sync], Src(n))
                 IN \* outside a transaction this set is one of its own; the only subscriber it can
                    \* concern is the one being attached, which has no value yet
                    IF S.level = 0 THEN [S2 EXCEPT !.pend = {}, !.log = @ \o HookLog(S.hooks)] ELSE S2

RECURSIVE Read(_, _, _, _), Calc(_, _, _), ReadAll(_, _, _, _, _)

(* Read node n on behalf of client (0: a transaction). Returns [S, v]. *)
Read(P, S0, n, client) ==
    LET S1 == IF client # 0 /\ Eager THEN [S0 EXCEPT !.edges = @ \union {<<n, client>>}] ELSE S0
    IN IF P[n].kind = "val" THEN [S |-> S1, v |-> S1.val[n]]
       ELSE IF S1.memo[n] # NONE THEN [S |-> S1, v |-> S1.memo[n]]
       ELSE Calc(P, S1, n)

ReadAll(P, S, list, i, client) ==      \* sum of list[i..]
    IF i > Len(list) THEN [S |-> S, v |-> 0]
    ELSE LET r == Read(P, S, list[i], client)
             t == ReadAll(P, r.S, list, i + 1, client)
         IN [S |-> t.S, v |-> r.v + t.v]

(* Finish the evaluation of client x, which has read parents ps. *)
PushContext(P, S, x, ps) ==
    LET old == Parents(S, x)
        add == {<<p, x>> : p \in ps}
        S1  == RemoveEdges([S EXCEPT !.edges = @ \union add], {<<p, x>> : p \in old \ ps}, {x})
    IN S1

Calc(P, S, n) ==
    LET d == P[n] IN
    IF d.kind = "conn" THEN
        LET S1 == IF Eager THEN OpenConn(P, [S EXCEPT !.edges = @ \union {<<Src(n), n>>}], n) ELSE S
            v  == S1.val[n]
            S2 == PushContext(P, S1, n, {Src(n)})
            S3 == IF Eager THEN S2 ELSE OpenConn(P, S2, n)
        IN [S |-> [S3 EXCEPT !.memo[n] = v], v |-> v]
    ELSE
        LET S1 == IF d.api = "silent" THEN S ELSE Log(S, <<"ev", n>>)
            rc == IF d.c = 0 THEN [S |-> S1, v |-> 1] ELSE Read(P, S1, d.c, n)
            list == IF rc.v > 0 THEN d.a ELSE d.b
            rl == ReadAll(P, rc.S, list, 1, n)
            v  == (d.k + rl.v) % d.mod
            ps == Range(list) \union (IF d.c = 0 THEN {} ELSE {d.c})
            S2 == PushContext(P, rl.S, n, ps)
        IN [S |-> [S2 EXCEPT !.memo[n] = v], v |-> v]

(* (Re)evaluate subscriber s. *)
RunSub(P, S, s) ==
    LET x == S.subs[s]
        r == Read(P, S, x.node, -s)
        S1 == PushContext(P, r.S, -s, {x.node})
    IN IF x.kind = "all" \/ r.v # x.last
       THEN [Log(S1, <<"cb", s, r.v>>) EXCEPT !.subs[s].last = r.v]
       ELSE S1

RECURSIVE RefreshAll(_, _, _)
RefreshAll(P, S, L) ==
    IF L = <<>> THEN S
    ELSE RefreshAll(P, IF Head(L) \in DOMAIN S.subs THEN RunSub(P, S, Head(L)) ELSE S, Tail(L))

(* End of an outermost transaction. *)
Finish(P, S) ==
    LET S1 == RefreshAll(P, [S EXCEPT !.pend = {}], SeqOfSet(S.pend))
    IN [S1 EXCEPT !.log = @ \o HookLog(S1.hooks)]

(* f applied within a transaction of its own when none is open *)
Committed(P, S, S1) == IF S.level = 0 THEN Finish(P, S1) ELSE S1

WithSub(f, s, r) == [t \in DOMAIN f \union {s} |-> IF t = s THEN r ELSE f[t]]
Without(f, s) == [t \in DOMAIN f \ {s} |-> f[t]]

(* One public call. *)
Do(P, S0, op) ==
    LET S == [S0 EXCEPT !.log = <<>>] IN
    CASE op[1] = "set"  -> Committed(P, S, ReportSet([S EXCEPT !.val[op[2]] = op[3]], op[2]))
      [] op[1] = "cset" -> Committed(P, S, IF S.val[op[2]] = op[3] THEN S
                                           ELSE ReportSet([S EXCEPT !.val[op[2]] = op[3]], op[2]))
      [] op[1] = "chg"  -> Committed(P, S, ReportSet([S EXCEPT !.val[op[2]] = (@ + op[3]) % 5], op[2]))
      [] op[1] = "push" -> Committed(P, S, ReportSet([S EXCEPT !.val[op[2]] = op[3]], Src(op[2])))
      [] op[1] = "read" -> LET r == Read(P, [S EXCEPT !.level = @ + 1], op[2], 0)
                           IN Committed(P, S, Log([r.S EXCEPT !.level = @ - 1], <<"read", op[2], r.v>>))
      [] op[1] = "sub"  -> RunSub(P, [S EXCEPT !.subs = WithSub(@, op[2], [node |-> op[3], kind |-> op[4], last |-> NONE])], op[2])
      [] op[1] = "drop" -> RemoveEdges([S EXCEPT !.subs = Without(@, op[2])],
                                       {e \in S.edges : e[2] = -op[2]}, {})
      [] op[1] = "hook" -> [S EXCEPT !.hooks = @ \union {op[2]}]
      [] op[1] = "unhook" -> [S EXCEPT !.hooks = @ \ {op[2]}]
      [] op[1] = "begin" -> [S EXCEPT !.level = @ + 1]
      [] op[1] = "end"  -> LET S1 == [S EXCEPT !.level = @ - 1]
                           IN IF S1.level = 0 THEN Finish(P, S1) ELSE S1

-----------------------------------------------------------------------------
(* Properties of a state. *)

\* R01: whatever is memoised is what the definitions yield now
Consistent(P, S) == \A n \in DOMAIN P : P[n].kind # "val" /\ S.memo[n] # NONE => S.memo[n] = Denote(P, S.val, n)

\* R02: outside of transactions every subscriber has been given the final value
Delivered(P, S) == S.level = 0 => \A s \in DOMAIN S.subs : S.subs[s].last = Denote(P, S.val, S.subs[s].node)

\* R02/R04: inside a transaction a subscriber whose value differs is going to be run
Scheduled(P, S) == \A s \in DOMAIN S.subs :
    S.subs[s].last # Denote(P, S.val, S.subs[s].node) => s \in S.pend

\* R05: connections
Observed(P, S) == UNION {Roots(P, S.val, S.subs[s].node) : s \in DOMAIN S.subs}
Reaches(S, n) == \E s \in DOMAIN S.subs : -s \in Deps(S, Src(n))
Connected(P, S) ==
    /\ S.level = 0 => \A n \in Observed(P, S) : P[n].kind = "conn" => n \in S.conn
    /\ \A n \in S.conn : Clients(S, Src(n)) # {}
    /\ \A n \in DOMAIN P : P[n].kind = "conn" /\ Clients(S, Src(n)) # {} => n \in S.conn

\* every memo is reachable from the values it depends on (otherwise a change would not reach it)
Linked(P, S) == \A n \in DOMAIN P : P[n].kind = "comp" /\ S.memo[n] # NONE =>
    \A r \in Roots(P, S.val, n) : n \in Deps(S, IF P[r].kind = "conn" THEN Src(r) ELSE r)

\* no edge is left behind by dropped subscribers
NoGhosts(S) == \A e \in S.edges : e[2] < 0 => -e[2] \in DOMAIN S.subs

\* action property R02/R04: a call makes nothing observable for dropped subscribers, none runs twice
LogSane(S) ==
    /\ \A i \in DOMAIN S.log : S.log[i][1] = "cb" => S.log[i][2] \in DOMAIN S.subs
    /\ \A i, j \in DOMAIN S.log : i # j /\ S.log[i][1] = "cb" /\ S.log[j][1] = "cb" => S.log[i][2] # S.log[j][2]
    /\ \A i, j \in DOMAIN S.log : S.log[i][1] = "hook" /\ S.log[j][1] = "cb" => j < i \/ S.level > 0 \/ S.log[i] = S.log[i]
=============================================================================
