------------------------------ MODULE AutoMap ------------------------------
(* Keyed stores which create their entries on demand (R06). An entry is a      *)
(* variable; creating one may need entries of other keys first. Handles of a   *)
(* store may be copied; views follow the entry of the key a variable says.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Keys == 0..3
\* plan[k + 1]: the keys needed to create k, in this order (all less than k)
InitState == [maps |-> <<>>, stores |-> <<>>, vars |-> <<>>, views |-> <<>>, log |-> <<>>, sub |-> <<>>]
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Var(s, x) == IF x \in DOMAIN s.vars THEN s.vars[x] ELSE 0
First(k) == 100 * k

\* the store with the entry of k, which is made if it is missing
RECURSIVE Get(_, _, _), GetAll(_, _, _)
Get(s, n, k) ==
    IF k \in DOMAIN s.stores[n].ent THEN s
    ELSE LET T == GetAll(s, n, IF k + 1 \in DOMAIN s.stores[n].plan THEN s.stores[n].plan[k + 1] ELSE <<>>)
             at == Cardinality(DOMAIN T.stores[n].ent) IN
         [T EXCEPT !.stores[n].ent = Put(@, k, [at |-> at, v |-> First(k)]), !.sub = Append(@, <<"made", n, k, at>>)]
GetAll(s, n, q) == IF q = <<>> THEN s ELSE GetAll(Get(s, n, Head(q)), n, Tail(q))

\* the entries of a range of keys which need no others
Many(s, n, a, b) ==
    LET have == DOMAIN s.stores[n].ent
        new == TLCEval({k \in a..b : k \notin have})
        at == TLCEval([k \in new |-> Cardinality(have) + Cardinality({j \in new : j < k})])
        ent == TLCEval([k \in have \cup new |-> IF k \in new THEN [at |-> at[k], v |-> First(k)] ELSE s.stores[n].ent[k]])
        order == SetToSortSeq(new, <)
    IN [s EXCEPT !.stores[n].ent = ent, !.sub = @ \o [i \in DOMAIN order |-> <<"made", n, order[i], at[order[i]]>>]]
Value(s, n, k) == s.stores[n].ent[k].v
\* every view looks again
See(s, w) ==
    LET x == s.views[w] k == Var(s, x.s) T == Get(s, x.n, k) v == Value(T, x.n, k) IN
    IF x.seen = <<v>> THEN T ELSE [T EXCEPT !.views[w].seen = <<v>>, !.sub = Append(@, <<"amv", w, v>>)]
RECURSIVE SeeAll(_, _)
SeeAll(s, ws) == IF ws = {} THEN s ELSE LET w == CHOOSE y \in ws : TRUE IN SeeAll(See(s, w), ws \ {w})
Settle(s) == SeeAll(s, DOMAIN s.views)

Op(s, o) ==
    CASE o[1] = "map" -> [s EXCEPT !.stores = Append(@, [plan |-> o[4], ent |-> <<>>]), !.maps = Put(@, o[2], Len(s.stores) + 1)]
      [] o[1] = "amclone" -> IF o[3] \in DOMAIN s.maps THEN [s EXCEPT !.maps = Put(@, o[2], s.maps[o[3]])] ELSE s
      [] o[1] = "amforget" -> [s EXCEPT !.maps = Del(@, o[2])]
      [] o[1] = "amget" -> IF o[2] \notin DOMAIN s.maps THEN s
                           ELSE LET n == s.maps[o[2]] T == Get(s, n, o[3]) IN Say(T, <<"amget", o[2], o[3], T.stores[n].ent[o[3]].at, Value(T, n, o[3])>>)
      \* a store may grow large
      [] o[1] = "ammany" -> IF o[2] \notin DOMAIN s.maps THEN s
                            ELSE LET n == s.maps[o[2]] IN
                                 CHOOSE r \in {Say(t, <<"ammany", [i \in 1..(o[4] - o[3] + 1) |-> t.stores[n].ent[o[3] + i - 1].at]>>) : t \in {Many(s, n, o[3], o[4])}} : TRUE
      [] o[1] = "amset" -> IF o[2] \notin DOMAIN s.maps THEN s
                           ELSE LET n == s.maps[o[2]] IN [Get(s, n, o[3]) EXCEPT !.stores[n].ent[o[3]].v = o[4]]
      [] o[1] = "ameq" -> IF {o[2], o[3]} \subseteq DOMAIN s.maps THEN Say(s, <<"ameq", s.maps[o[2]] = s.maps[o[3]]>>) ELSE s
      [] o[1] = "set" -> [s EXCEPT !.vars = Put(@, o[2], o[3])]
      [] o[1] = "amview" -> IF o[3] \in DOMAIN s.maps THEN [s EXCEPT !.views = Put(@, o[2], [n |-> s.maps[o[3]], s |-> o[4], seen |-> <<>>])] ELSE s
      [] o[1] = "amdrop" -> [s EXCEPT !.views = Del(@, o[2])]
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.sub = <<>>] IN
    Settle(IF h[2][1] = "tx" THEN Ops(T, h[2][2]) ELSE Op(T, h[2]))
Record(h, t) == [do |-> h, log |-> t.log \o t.sub]

-----------------------------------------------------------------------------
\* every entry was made once, after those it needs; a view shows the entry of its key
Good1(s) ==
    /\ \A n \in DOMAIN s.stores : LET e == s.stores[n].ent IN
         /\ {e[k].at : k \in DOMAIN e} = 0..(Cardinality(DOMAIN e) - 1)
         /\ \A k \in DOMAIN e : k + 1 \in DOMAIN s.stores[n].plan => \A i \in DOMAIN s.stores[n].plan[k + 1] : LET d == s.stores[n].plan[k + 1][i] IN d \in DOMAIN e /\ e[d].at < e[k].at
    /\ \A w \in DOMAIN s.views : LET x == s.views[w] IN Var(s, x.s) \in DOMAIN s.stores[x.n].ent /\ x.seen = <<Value(s, x.n, Var(s, x.s))>>
\* an entry stays the same one for ever
Kept(s, t) == \A n \in DOMAIN s.stores : \A k \in DOMAIN s.stores[n].ent : k \in DOMAIN t.stores[n].ent /\ t.stores[n].ent[k].at = s.stores[n].ent[k].at
=============================================================================
