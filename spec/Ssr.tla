-------------------------------- MODULE Ssr ---------------------------------
(* Rendering pages on the server (S02, S03, S04).                              *)
(*                                                                            *)
(* Every page request runs an application of its own.  What the application   *)
(* sends to the server is put in one queue and processed in turn: callbacks of *)
(* timers without delay, requests, answers to requests, a plain response, a    *)
(* panic.  Timers with a delay, intervals and sockets do not exist here.       *)
(* A request equal to an earlier one of the same page is not sent again: the   *)
(* answer is shared.  The page is answered when the queue is empty and no      *)
(* request is open, by the first plain response or panic of the queue, or at   *)
(* the time limit with what there is.                                          *)
(*                                                                            *)
(* The content of a page is a set of cells, each written by one place of the   *)
(* program, so that the answer does not depend on the order in which requests  *)
(* are answered; SsrMC checks this over all schedules.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
F == INSTANCE Fetch

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Nothing == <<>>

\* a page: program [ops, plain, root]; root: "html" | "nobody" | "div" (what the application has as its root)
\* s: q the queue, cell (id -> content), tbl (request -> [ph, ans, wait]), net (requests in order), sent (during this
\* step), dead (the application panicked), out (<<>> or the answer)
Blank == [q |-> <<>>, cell |-> Nothing, tbl |-> Nothing, net |-> <<>>, sent |-> <<>>, dead |-> FALSE, out |-> <<>>]
Say(s, m) == [s EXCEPT !.q = Append(@, m)]

\* the environment the server is started with
EnvOf(n) == CASE n = "A" -> "~Q~" [] n = "B" -> "" [] n = "LONG_name.x" -> "~U~=~Z~" [] OTHER -> "null"

Waiting(how) == IF how = "cache" THEN <<"loading">> ELSE <<"=", "-">>
RECURSIVE Run(_, _)
Do(s, o) ==
    CASE o[1] = "set" -> [s EXCEPT !.cell = Put(@, o[2], <<"=", o[3]>>)]
      [] o[1] = "spawn" -> Say(s, [k |-> "run", ops |-> o[2]])
      [] o[1] \in {"fetch", "cache"} -> Say([s EXCEPT !.cell = Put(@, o[2], Waiting(o[1]))],
                                            [k |-> "ask", how |-> o[1], c |-> o[2], key |-> F!Asked(o[3]), ops |-> o[4]])
      [] o[1] = "panic" -> [Say(s, [k |-> "panic"]) EXCEPT !.dead = TRUE]
      [] o[1] = "nap" -> Say(s, [k |-> "nap", n |-> o[2], ops |-> o[3]])
      [] o[1] = "env" -> [s EXCEPT !.cell = Put(@, o[2], <<"env", o[3], EnvOf(o[3])>>)]
      [] o[1] = "random" -> [s EXCEPT !.cell = Put(@, o[2], <<"random", o[3], o[4]>>)]
      [] o[1] = "zone" -> [s EXCEPT !.cell = Put(@, o[2], <<"zone", 0>>)]
      [] o[1] = "browser" -> [s EXCEPT !.cell = Put(@, o[2], <<"browser", FALSE, TRUE>>)]
      [] o[1] = "starts" -> [s EXCEPT !.cell = Put(@, o[2], <<"starts", 1>>)]
      [] o[1] \in {"route", "time"} -> [s EXCEPT !.cell = Put(@, o[2], <<o[1]>>)]
      \* "later", "interval", "socket", "cookie", "push", "back": nothing the visitor could see
      [] OTHER -> s
Run(s, ops) == IF ops = <<>> \/ s.dead THEN s ELSE Run(Do(s, Head(ops)), Tail(ops))

Deliver(s, waiter, ans) ==
    IF s.dead THEN s ELSE Say(s, [k |-> "resume", how |-> waiter.how, c |-> waiter.c, ans |-> ans, ops |-> waiter.ops])
RECURSIVE DeliverAll(_, _, _)
DeliverAll(s, ws, ans) == IF ws = <<>> THEN s ELSE DeliverAll(Deliver(s, Head(ws), ans), Tail(ws), ans)

\* an answer as the application sees it
Bad(r) == \/ r.status = 0
          \/ r.body = "cut" /\ r.status \notin F!NoBody
          \/ r.type \in F!JsonTypes /\ (r.status \in F!NoBody \/ r.body \notin F!JsonBodies)
Ans(r) == IF Bad(r) THEN [ok |-> FALSE, st |-> 0, x |-> <<>>] ELSE [ok |-> TRUE, st |-> r.status, x |-> F!Answer(r)[2]]
\* a cached resource takes answers of status 200 only and wants JSON; a response shows whatever has come
Shown(how, ans) ==
    IF ~ans.ok THEN <<"error">>
    ELSE IF how = "fetch" THEN <<"resp", ans.x>>
    ELSE IF ans.st = 200 /\ ans.x[2] = "json" THEN <<"ready", ans.x>> ELSE <<"error">>

Process(s, prog) ==
    LET m == Head(s.q)
        T == [s EXCEPT !.q = Tail(@)] IN
    CASE m.k = "run" -> IF s.dead THEN T ELSE Run(T, m.ops)
      [] m.k = "nap" -> IF s.dead THEN T ELSE IF m.n = 0 THEN Run(T, m.ops) ELSE Say(T, [m EXCEPT !.n = @ - 1])
      [] m.k = "ask" -> IF s.dead THEN T ELSE Say(T, [k |-> "fetch", key |-> m.key, w |-> [how |-> m.how, c |-> m.c, ops |-> m.ops]])
      [] m.k = "fetch" ->
            IF m.key \in DOMAIN T.tbl
            THEN IF T.tbl[m.key].ph # "in" THEN [T EXCEPT !.tbl[m.key].wait = Append(@, m.w)]
                 ELSE Deliver(T, m.w, T.tbl[m.key].ans)
            ELSE [T EXCEPT !.tbl = Put(@, m.key, [ph |-> "out", ans |-> <<>>, wait |-> <<m.w>>]),
                           !.net = Append(@, m.key), !.sent = Append(@, m.key)]
      [] m.k = "resp" -> DeliverAll([T EXCEPT !.tbl[m.key].ph = "in", !.tbl[m.key].ans = m.ans, !.tbl[m.key].wait = <<>>],
                                    T.tbl[m.key].wait, m.ans)
      [] m.k = "resume" ->
            IF s.dead THEN T ELSE Run([T EXCEPT !.cell = Put(@, m.c, Shown(m.how, m.ans))], m.ops)
      [] m.k = "panic" -> [T EXCEPT !.out = <<"error">>]
      [] m.k = "plain" -> [T EXCEPT !.out = <<"plain", prog.plain>>]
      [] m.k = "limit" -> [T EXCEPT !.out = IF prog.root = "html" THEN <<"html", T.cell>> ELSE <<"error">>]

Open(s) == {k \in DOMAIN s.tbl : s.tbl[k].ph = "out"}
\* nothing left to do: the page is answered
Settled(s, prog) == s.out = <<>> /\ s.q = <<>> /\ {k \in DOMAIN s.tbl : s.tbl[k].ph # "in"} = {}
Close(s, prog) == [s EXCEPT !.out = IF prog.root = "html" THEN <<"html", s.cell>> ELSE <<"error">>]

\* the application starts; a plain response is asked for once it has started
Begin(prog) ==
    LET s == Run(Blank, prog.ops) IN
    IF prog.plain # "none" /\ ~s.dead THEN Say(s, [k |-> "plain"]) ELSE s

RECURSIVE Idle(_, _)
Idle(s, prog) ==
    IF s.out # <<>> THEN s
    ELSE IF s.q # <<>> THEN Idle(Process(s, prog), prog)
    ELSE IF Settled(s, prog) THEN Close(s, prog) ELSE s

\* the answer has come; it is put in the queue
Arrive(s, key, ans) == [Say(s, [k |-> "resp", key |-> key, ans |-> ans]) EXCEPT !.tbl[key].ph = "coming"]
Limit(s) == Say(s, [k |-> "limit"])

-----------------------------------------------------------------------------
(* The same application in the browser (S06): what it shows once everything it has asked for has been answered in the
   same way is what the server has shown, apart from what it knows about where it runs. *)
VisitorsZone == 5400
Taken(cells) == [c \in DOMAIN cells |->
    CASE cells[c][1] = "browser" -> <<"browser", TRUE, FALSE>>
      [] cells[c][1] = "zone" -> <<"zone", VisitorsZone>>
      [] OTHER -> cells[c]]
\* an answer means the same to the application on both sides (Fetch is the browser's)
AnswersAgree(rs) == \A r \in rs : LET a == Ans(r) b == IF r.status = 0 THEN F!Failed ELSE F!Answer(r) IN
    IF a.ok THEN b = <<a.st, a.x>> ELSE b = F!Failed

-----------------------------------------------------------------------------
(* Several pages with one server.  Host actions: open p (the request comes in),
   answer p key response, limit p, leave p (the visitor goes away).             *)
NoPage == [s |-> Blank, on |-> FALSE]
Quiet1(s) == [s EXCEPT !.sent = <<>>]
Apply(S, progs, h) ==
    LET p == h[2] IN
    CASE h[1] = "open" -> [S EXCEPT ![p] = [s |-> Idle(Begin(progs[p]), progs[p]), on |-> TRUE]]
      [] h[1] = "answer" -> [S EXCEPT ![p].s = Idle(Arrive(Quiet1(@), h[3], Ans(h[4])), progs[p])]
      [] h[1] = "limit" -> [S EXCEPT ![p].s = Idle(Limit(Quiet1(@)), progs[p])]
      [] h[1] = "leave" -> [S EXCEPT ![p].s = [Quiet1(@) EXCEPT !.out = <<"gone">>]]

\* what everybody relies on
Once(s) == \A i, j \in DOMAIN s.net : s.net[i] = s.net[j] => i = j
\* an html answer which did not come from the limit: every request that was started has been answered and shown
Complete(s) == s.out # <<>> /\ s.out[1] = "html" => \A c \in DOMAIN s.cell : s.cell[c][1] # "loading" /\ s.cell[c] # <<"=", "-">>
=============================================================================
