------------------------------- MODULE Page --------------------------------
(* The page a vertigo application shows: a component tree (elements, texts,   *)
(* value-dependent content, keyed lists, fragments), the state it reads, the  *)
(* mounted instance tree, and what transactions and browser events do to it.  *)
(*                                                                            *)
(* Render  - the denotation: the instance tree of a component tree in a state *)
(* Update  - what a transaction does to a mounted instance tree               *)
(* Flatten - the document an instance tree amounts to                         *)
(* Dispatch - a browser event: handlers from the target outwards, each one a  *)
(*           transaction of its own                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "-none-"

RECURSIVE SumVars(_, _, _)
SumVars(e, env, i) == IF i > Len(e.v) THEN 0 ELSE env.v[e.v[i]] + SumVars(e, env, i + 1)
\* an expression: sum of state variables and the key of the surrounding item
Eval(e, env, it) == (SumVars(e, env, 1) + e.a + e.i * it) % e.m

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

----------------------------------------------------------------------------
\* attributes, style classes

AttrVal(a, env, it) ==
    CASE a.k = "s" -> a.x
      [] a.k = "c" -> a.x \o ToString(Eval(a.e, env, it))
      [] a.k = "o" -> LET v == Eval(a.e, env, it) IN IF v = 0 THEN None ELSE a.x \o ToString(v)
      [] a.k = "v" -> env.s[a.j]
      [] a.k = "w" -> env.o[a.j]

Field(d) == d.tag \in {"input", "textarea"}
AttrOf(d, name, env, it) ==
    LET ix == {i \in DOMAIN d.at : d.at[i].n = name} IN
    IF ix = {} THEN None ELSE AttrVal(d.at[CHOOSE i \in ix : TRUE], env, it)
HasAttr(d, name) == \E i \in DOMAIN d.at : d.at[i].n = name

CssVal(css, env, it) ==
    CASE css.k = "n" -> <<>>
      [] css.k = "s" -> css.g
      [] css.k = "c" -> css.g[Eval(css.e, env, it) + 1]

\* the live value of a form field when it is created
Live0(d, env, it) ==
    IF ~Field(d) THEN "" ELSE LET v == AttrOf(d, "value", env, it) IN IF v = None THEN "" ELSE v

----------------------------------------------------------------------------
\* mounting.  path, st: where and when, the identity of what is created there;
\* anon: below something whose identity is not promised; mv: may be moved

Uid(path, st) == ToString(path) \o "@" \o ToString(st)

RECURSIVE Render(_, _, _, _, _, _, _)
Render(d, env, it, path, st, anon, mv) ==
    CASE d.t = "el" ->
           [t |-> "el", d |-> d, it |-> it, u |-> IF anon THEN "" ELSE Uid(path, st), live |-> Live0(d, env, it),
            val |-> AttrOf(d, "value", env, it), env |-> env,
            kids |-> [i \in DOMAIN d.c |-> Render(d.c[i], env, it, Append(path, i), st, anon, FALSE)]]
      [] d.t = "text" -> [t |-> "text", x |-> d.x]
      [] d.t \in {"ctext", "etext"} -> [t |-> "ctext", d |-> d, it |-> it, x |-> d.x \o ToString(Eval(d.e, env, it))]
      [] d.t = "stext" -> [t |-> "ctext", d |-> d, it |-> it, x |-> env.s[d.j]]
      [] d.t = "none" -> [t |-> "none"]
      [] d.t = "val" ->
           LET v == Eval(d.e, env, it) IN
           [t |-> "val", d |-> d, it |-> it, path |-> path, cur |-> v, anon |-> anon, mv |-> mv,
            kid |-> Render(d.b[v + 1], env, it, Append(path, v), st, anon \/ mv, FALSE)]
      [] d.t = "list" ->
           LET ks == env.l[d.l] IN
           [t |-> "list", d |-> d, path |-> path, anon |-> anon \/ mv,
            dup |-> Cardinality({ks[i] : i \in DOMAIN ks}) # Len(ks),
            items |-> [i \in DOMAIN ks |->
                [k |-> ks[i], n |-> Render(d.b[(ks[i] % Len(d.b)) + 1], env, ks[i], path \o <<ks[i], i>>, st, anon \/ mv, TRUE)]]]
      [] d.t = "frag" ->
           [t |-> "frag", kids |-> [i \in DOMAIN d.c |-> Render(d.c[i], env, it, Append(path, i), st, anon, mv)]]

----------------------------------------------------------------------------
\* one transaction: env is the new state

RECURSIVE Update(_, _, _)
Update(n, env, st) ==
    CASE n.t = "el" ->
           LET v == AttrOf(n.d, "value", env, n.it) IN
           [n EXCEPT !.kids = [i \in DOMAIN n.kids |-> Update(n.kids[i], env, st)],
                     !.val = v, !.env = env,
                     !.live = IF Field(n.d) /\ v # n.val THEN (IF v = None THEN "" ELSE v) ELSE n.live]
      [] n.t \in {"text", "none"} -> n
      [] n.t = "ctext" -> [n EXCEPT !.x = IF n.d.t = "stext" THEN env.s[n.d.j] ELSE n.d.x \o ToString(Eval(n.d.e, env, n.it))]
      [] n.t = "val" ->
           LET v == Eval(n.d.e, env, n.it) IN
           IF v = n.cur THEN [n EXCEPT !.kid = Update(n.kid, env, st)]
           ELSE [n EXCEPT !.cur = v,
                          !.kid = Render(n.d.b[v + 1], env, n.it, Append(n.path, v), st, n.anon \/ n.mv, FALSE)]
      [] n.t = "frag" -> [n EXCEPT !.kids = [i \in DOMAIN n.kids |-> Update(n.kids[i], env, st)]]
      [] n.t = "list" ->
           LET new == env.l[n.d.l]
               occ(s, i) == Cardinality({j \in 1..i : s[j] = s[i]})
               keys == [i \in DOMAIN n.items |-> n.items[i].k]
               old(i) == {j \in DOMAIN keys : keys[j] = new[i] /\ occ(keys, j) = occ(new, i)} IN
           [n EXCEPT !.dup = @ \/ Cardinality({new[i] : i \in DOMAIN new}) # Len(new),
                     !.items = [i \in DOMAIN new |->
                        IF old(i) # {} THEN LET j == CHOOSE j \in old(i) : TRUE IN [k |-> new[i], n |-> Update(n.items[j].n, env, st)]
                        ELSE [k |-> new[i], n |-> Render(n.d.b[(new[i] % Len(n.d.b)) + 1], env, new[i], n.path \o <<new[i], i>>, st, n.anon, TRUE)]]]

----------------------------------------------------------------------------
\* the document

RECURSIVE Loads(_)
\* is a suspense marker mounted in here
Loads(n) ==
    CASE n.t = "el" -> n.d.tag = "vertigo-suspense" \/ \E i \in DOMAIN n.kids : Loads(n.kids[i])
      [] n.t = "val" -> Loads(n.kid)
      [] n.t = "list" -> \E i \in DOMAIN n.items : Loads(n.items[i].n)
      [] n.t = "frag" -> \E i \in DOMAIN n.kids : Loads(n.kids[i])
      [] OTHER -> FALSE

Attrs(n) ==
    LET vals == [i \in DOMAIN n.d.at |-> <<n.d.at[i].n, AttrVal(n.d.at[i], n.env, n.it)>>] IN
    {vals[i] : i \in {j \in DOMAIN vals : vals[j][1] # "class" /\ vals[j][2] # None}}

\* own class value, style classes, suspense: number of the callback and whether something loads in the element
\* around it (a placeholder and the content it stands for are siblings)
Class(n, pl) == [a |-> AttrOf(n.d, "class", n.env, n.it), g |-> CssVal(n.d.css, n.env, n.it), s |-> n.d.sus,
             b |-> n.d.sus # 0 /\ pl]

RECURSIVE Flat(_, _, _, _)
\* il: below a keyed list; pl: something loads in the parent element
Flat(n, anon, il, pl) ==
    CASE n.t = "el" ->
           LET ld == \E i \in DOMAIN n.kids : Loads(n.kids[i]) IN
           <<[n |-> n.d.tag, u |-> IF anon THEN "" ELSE n.u, a |-> Attrs(n), cl |-> Class(n, pl), lv |-> n.live, il |-> il,
              c |-> Cat([i \in DOMAIN n.kids |-> Flat(n.kids[i], anon, il, ld)])]>>
      [] n.t \in {"text", "ctext"} -> <<[x |-> n.x]>>
      [] n.t = "none" -> <<>>
      [] n.t = "val" -> Flat(n.kid, anon, il, pl)
      [] n.t = "list" -> Cat([i \in DOMAIN n.items |-> Flat(n.items[i].n, anon \/ n.dup, TRUE, pl)])
      [] n.t = "frag" -> Cat([i \in DOMAIN n.kids |-> Flat(n.kids[i], anon, il, pl)])
Flatten(n) == Flat(n, FALSE, FALSE, Loads(n))

\* the document without identities and live values (what rendering from scratch determines)
RECURSIVE Strip(_)
Strip(f) == [i \in DOMAIN f |-> IF "x" \in DOMAIN f[i] THEN f[i]
                               ELSE [n |-> f[i].n, a |-> f[i].a, cl |-> f[i].cl, c |-> Strip(f[i].c)]]

----------------------------------------------------------------------------
\* events

RECURSIVE Els(_, _, _, _)
\* mounted elements with the way from each to the root and the events handled on that way
Els(n, chain, ty, anon) ==
    CASE n.t = "el" ->
           LET u == IF anon THEN "" ELSE n.u
               c2 == <<u>> \o chain
               t2 == ty \cup {n.d.ev[i].e : i \in DOMAIN n.d.ev} IN
           IF u = "" THEN {} ELSE
           {[u |-> u, tag |-> n.d.tag, chain |-> c2, ty |-> t2, own |-> {n.d.ev[i].e : i \in DOMAIN n.d.ev}]}
           \cup UNION {Els(n.kids[i], c2, t2, anon) : i \in DOMAIN n.kids}
      [] n.t = "val" -> Els(n.kid, chain, ty, anon)
      [] n.t = "list" -> UNION {Els(n.items[i].n, chain, ty, anon \/ n.dup) : i \in DOMAIN n.items}
      [] n.t = "frag" -> UNION {Els(n.kids[i], chain, ty, anon) : i \in DOMAIN n.kids}
      [] OTHER -> {}

RECURSIVE Find(_, _)
Find(n, u) ==
    CASE n.t = "el" -> IF n.u = u THEN {n} ELSE UNION {Find(n.kids[i], u) : i \in DOMAIN n.kids}
      [] n.t = "val" -> Find(n.kid, u)
      [] n.t = "list" -> UNION {Find(n.items[i].n, u) : i \in DOMAIN n.items}
      [] n.t = "frag" -> UNION {Find(n.kids[i], u) : i \in DOMAIN n.kids}
      [] OTHER -> {}

RECURSIVE SetLive(_, _, _)
SetLive(n, u, s) ==
    CASE n.t = "el" -> [n EXCEPT !.live = IF n.u = u THEN s ELSE @, !.kids = [i \in DOMAIN n.kids |-> SetLive(n.kids[i], u, s)]]
      [] n.t = "val" -> [n EXCEPT !.kid = SetLive(n.kid, u, s)]
      [] n.t = "list" -> [n EXCEPT !.items = [i \in DOMAIN n.items |-> [n.items[i] EXCEPT !.n = SetLive(n.items[i].n, u, s)]]]
      [] n.t = "frag" -> [n EXCEPT !.kids = [i \in DOMAIN n.kids |-> SetLive(n.kids[i], u, s)]]
      [] OTHER -> n

\* all mounted elements with a document-wide key handler
RECURSIVE Hooks(_)
Hooks(n) ==
    CASE n.t = "el" -> Cat([i \in DOMAIN n.d.ev |-> IF n.d.ev[i].e = "hook" THEN <<[h |-> n.d.ev[i], it |-> n.it]>> ELSE <<>>])
                       \o Cat([i \in DOMAIN n.kids |-> Hooks(n.kids[i])])
      [] n.t = "val" -> Hooks(n.kid)
      [] n.t = "list" -> Cat([i \in DOMAIN n.items |-> Hooks(n.items[i].n)])
      [] n.t = "frag" -> Cat([i \in DOMAIN n.kids |-> Hooks(n.kids[i])])
      [] OTHER -> <<>>

ApplyOp(env, op) ==
    CASE op.k \in {"v", "vc", "vs"} -> [env EXCEPT !.v[op.j] = op.x]
      [] op.k = "l" -> [env EXCEPT !.l[op.j] = op.x]
      [] op.k = "s" -> [env EXCEPT !.s[op.j] = op.x]
      [] op.k = "o" -> [env EXCEPT !.o[op.j] = op.x]
RECURSIVE ApplyOps(_, _)
ApplyOps(env, ops) == IF ops = <<>> THEN env ELSE ApplyOps(ApplyOp(env, Head(ops)), Tail(ops))

\* state of a running page: env, inst, st (number of transactions so far), log
Transact(S, ops) ==
    LET env == ApplyOps(S.env, ops) IN
    [S EXCEPT !.env = env, !.st = @ + 1, !.inst = Update(S.inst, env, S.st + 1)]

Bubbles(type) == type \in {"click", "mousedown", "mouseup", "keydown", "input", "change", "drop"}
Prevents(type, r) == type \in {"click", "drop", "load"} \/ (type \in {"mousedown", "mouseup", "keydown"} /\ r)

\* the handlers of one element, in the order in which they were attached; none any more once the element is gone
RECURSIVE Here(_, _, _, _, _, _)
Here(A, target, u, from, type, pl) ==
    LET f == Find(A.S.inst, u) IN
    IF f = {} THEN A
    ELSE LET n == CHOOSE x \in f : TRUE
             hx == {i \in DOMAIN n.d.ev : i >= from /\ n.d.ev[i].e = type} IN
         IF hx = {} THEN A
         ELSE LET at == CHOOSE i \in hx : \A j \in hx : i <= j
                  h == n.d.ev[at]
                  cap == IF h.k = "c" THEN Eval(h.x, A.S.env, n.it) ELSE -1
                  S2 == [Transact(A.S, h.ops) EXCEPT !.log = Append(A.S.log, [h |-> h.h, p |-> IF type \in {"input", "change"} THEN A.tv ELSE pl, c |-> cap])]
                  tf == Find(S2.inst, target)
                  tv2 == IF tf # {} /\ Field((CHOOSE x \in tf : TRUE).d) THEN (CHOOSE x \in tf : TRUE).live ELSE A.tv
              IN Here([S |-> S2, stop |-> A.stop \/ (type = "keydown" /\ h.r), prev |-> A.prev \/ Prevents(type, h.r), tv |-> tv2],
                      target, u, at + 1, type, pl)
\* acc: [S, stop, prev, tv, pl]; tv: value of the target field
RECURSIVE Bubble(_, _, _, _, _)
Bubble(A, target, chain, type, pl) ==
    IF chain = <<>> \/ A.stop THEN A
    ELSE Bubble(Here(A, target, Head(chain), 1, type, pl), target, Tail(chain), type, pl)

\* the whole event; el: a record of Els
Dispatch(S0, el, type, pl) ==
    LET S1 == [S0 EXCEPT !.log = <<>>, !.inst = IF type \in {"input", "change"} /\ el.tag \in {"input", "textarea"} THEN SetLive(S0.inst, el.u, pl) ELSE S0.inst]
        A == Bubble([S |-> S1, stop |-> FALSE, prev |-> FALSE, tv |-> pl], el.u, IF Bubbles(type) THEN el.chain ELSE <<el.u>>, type, pl)
        hk == Hooks(A.S.inst)
        run == type = "keydown" /\ ~A.stop IN
    [S |-> IF run THEN [A.S EXCEPT !.log = @ \o [i \in DOMAIN hk |->
                [h |-> hk[i].h.h, p |-> pl, c |-> IF hk[i].h.k = "c" THEN Eval(hk[i].h.x, A.S.env, hk[i].it) ELSE -1]]] ELSE A.S,
     prev |-> A.prev \/ (run /\ \E i \in DOMAIN hk : hk[i].h.r)]

Start(tree, env) == [env |-> env, inst |-> Render(tree, env, 0, <<>>, 0, FALSE, FALSE), st |-> 0, log |-> <<>>]

----------------------------------------------------------------------------
\* what has to hold of every reachable state
Denotes(tree, S) == Strip(Flatten(S.inst)) = Strip(Flatten(Render(tree, S.env, 0, <<>>, 0, FALSE, FALSE)))
RECURSIVE Uids(_)
Uids(f) == Cat([i \in DOMAIN f |-> IF "x" \in DOMAIN f[i] THEN <<>> ELSE (IF f[i].u = "" THEN <<>> ELSE <<f[i].u>>) \o Uids(f[i].c)])
Unique(S) == LET us == Uids(Flatten(S.inst)) IN Cardinality({us[i] : i \in DOMAIN us}) = Len(us)
=============================================================================
