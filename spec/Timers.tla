------------------------------- MODULE Timers ------------------------------
(* Timers, sleeps, intervals and spawned futures of an application (F03).      *)
(*                                                                            *)
(* A future is a list of steps.  sleep/join/recv may block; every other step   *)
(* is an operation.  A blocked future leaves its waker in what it waits for;   *)
(* when that completes, the future is polled once, by a timer of its own.      *)
(* Everything one timer callback sets is one transaction: watchers are told    *)
(* at its end, once, and only if what they see has changed.                    *)
EXTENDS Loop

\* s: now, ts (pending timers), tk (futures), bx (what futures wait for), iv (intervals), vr (variables),
\*    wt (watchers: last value told), told (number of times each box woke its future), log
NoBox == [full |-> FALSE, val |-> 0, waker |-> 0, taken |-> FALSE]
InitState(nv) == [now |-> 0, ts |-> <<>>, tk |-> <<>>, bx |-> <<>>, iv |-> <<>>, vr |-> [i \in 1..nv |-> 0],
                  wt |-> <<>>, log |-> <<>>, nbox |-> 100]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Arm(s, t) == [s EXCEPT !.ts = Append(@, t)]
Poll(s, t) == Arm(s, [at |-> s.now, kind |-> "poll", id |-> t])
Seen(s, w) == [i \in DOMAIN s.wt[w].on |-> s.vr[s.wt[w].on[i]]]

\* the end of a transaction: subscribers (their mutual order is left open: log entries <<"sub", ...>> are a bag)
Notify(s) ==
    LET ch == {w \in DOMAIN s.wt : s.wt[w].live /\ s.wt[w].last # Seen(s, w)}
        RECURSIVE tell(_, _)
        tell(T, q) == IF q = {} THEN T
                      ELSE LET w == CHOOSE x \in q : \A y \in q : x <= y IN
                           tell(Say([T EXCEPT !.wt[w].last = Seen(T, w)], <<"vals", w, Seen(s, w)>>), q \ {w}) IN
    tell(s, ch)

Publish(s, b, x) ==
    IF b \notin DOMAIN s.bx THEN s ELSE
    LET w == s.bx[b].waker
        T == [s EXCEPT !.bx[b] = [@ EXCEPT !.full = TRUE, !.val = x, !.waker = 0]] IN
    IF w # 0 THEN Poll(T, w) ELSE T

Op(s, o) ==
    CASE o[1] = "log" -> Say(s, <<"log", o[2]>>)
      [] o[1] = "set" -> [s EXCEPT !.vr[o[2]] = o[3]]
      [] o[1] = "interval" -> Arm([s EXCEPT !.iv = Put(@, o[2], [per |-> o[3], ops |-> o[4], live |-> TRUE, from |-> s.now, n |-> 0])],
                                  [at |-> s.now + Later(o[3], 1), kind |-> "iv", id |-> o[2]])
      [] o[1] = "clear" -> IF o[2] \notin DOMAIN s.iv THEN s ELSE
                           [s EXCEPT !.iv[o[2]].live = FALSE,
                                     !.ts = TimersNot(@, LAMBDA t : t.kind = "iv" /\ t.id = o[2])]
      [] o[1] = "spawn" -> Poll([s EXCEPT !.tk = Put(@, o[2], [prog |-> o[3], pc |-> 1, wait |-> {}, polls |-> 0, wakes |-> 0])], o[2])
      [] o[1] = "box" -> [s EXCEPT !.bx = Put(@, o[2], NoBox)]
      [] o[1] = "send" -> Publish(s, o[2], o[3])
      [] o[1] = "watch" -> LET T == [s EXCEPT !.wt = Put(@, o[2], [on |-> o[3], last |-> <<>>, live |-> TRUE])] IN
                           Say([T EXCEPT !.wt[o[2]].last = Seen(T, o[2])], <<"vals", o[2], Seen(T, o[2])>>)
      [] o[1] = "unsub" -> IF o[2] \in DOMAIN s.wt THEN [s EXCEPT !.wt[o[2]].live = FALSE] ELSE s

RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))

Sleep(s, d) == LET b == s.nbox IN
    [st |-> Arm([s EXCEPT !.bx = Put(@, b, NoBox), !.nbox = b + 1], [at |-> s.now + d, kind |-> "sleep", id |-> b]), b |-> b]

\* polls the boxes the future waits for; those which are full are taken
Await(s, t) ==
    LET full == {b \in s.tk[t].wait : s.bx[b].full}
        rest == s.tk[t].wait \ full IN
    [s EXCEPT !.tk[t].wait = rest,
              !.bx = [b \in DOMAIN @ |-> IF b \in full THEN [@[b] EXCEPT !.full = FALSE, !.waker = 0]
                                         ELSE IF b \in rest THEN [@[b] EXCEPT !.waker = t] ELSE @[b]]]

RECURSIVE Run(_, _)
RECURSIVE Block(_, _)
\* runs the future from its current step until it blocks or ends; the step at pc has not been started
Run(s, t) ==
    LET k == s.tk[t] IN
    IF k.pc > Len(k.prog) THEN [Say(s, <<"end", t>>) EXCEPT !.tk[t].pc = 0]
    ELSE LET o == k.prog[k.pc] IN
    CASE o[1] = "sleep" -> LET z == Sleep(s, o[2]) IN Block([z.st EXCEPT !.tk[t].wait = {z.b}], t)
      [] o[1] = "join" -> LET y == Sleep(s, o[2]) z == Sleep(y.st, o[3]) IN Block([z.st EXCEPT !.tk[t].wait = {y.b, z.b}], t)
      [] o[1] = "recv" -> IF o[2] \notin DOMAIN s.bx \/ s.bx[o[2]].taken THEN Run([s EXCEPT !.tk[t].pc = @ + 1], t)
                          ELSE Block([s EXCEPT !.tk[t].wait = {o[2]}, !.bx[o[2]].taken = TRUE], t)
      [] OTHER -> Run([Op(s, o) EXCEPT !.tk[t].pc = @ + 1], t)
Block(s, t) ==
    LET o == s.tk[t].prog[s.tk[t].pc]
        T == Await(s, t) IN
    IF T.tk[t].wait # {} THEN T
    ELSE Run([(IF o[1] = "recv" THEN Say(T, <<"got", t, o[2], T.bx[o[2]].val>>) ELSE T) EXCEPT !.tk[t].pc = @ + 1], t)

PollTask(s, t) ==
    IF s.tk[t].pc = 0 THEN s        \* already finished
    ELSE LET T == Say([s EXCEPT !.tk[t].polls = @ + 1], <<"poll", t>>) IN
         IF T.tk[t].wait = {} THEN Run(T, t) ELSE Block(T, t)

\* the callback of one timer
Fire(s) ==
    LET i == NextTimer(s.ts)
        t == s.ts[i]
        s1 == [s EXCEPT !.now = Later(@, t.at), !.ts = Without(@, i)] IN
    CASE t.kind = "poll" -> Notify(PollTask(s1, t.id))
      [] t.kind = "sleep" -> Notify(Publish(s1, t.id, 0))
      [] t.kind = "iv" -> LET iv == s1.iv[t.id]
                              s2 == Arm([s1 EXCEPT !.iv[t.id].n = @ + 1], [t EXCEPT !.at = t.at + Later(iv.per, 1)]) IN
                          Notify(Ops(Say(s2, <<"tick", t.id>>), iv.ops))

RECURSIVE Advance(_, _)
Advance(s, to) ==
    IF s.ts # <<>> /\ s.ts[NextTimer(s.ts)].at <= to THEN Advance(Fire(s), to) ELSE [s EXCEPT !.now = Later(@, to)]

\* an operation of the application outside of any callback: a transaction of its own
Call(s, o) == IF o[1] = "tx" THEN Notify(Ops(s, o[2])) ELSE Notify(Op(s, o))

\* what the host does
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>] IN
    CASE h[1] = "app" -> Call(T, h[2])
      [] h[1] = "timer" -> IF T.ts = <<>> THEN T ELSE Fire(T)
      [] h[1] = "wait" -> Advance(T, T.now + h[2])

\* all timers end, except intervals, which are stopped first
Ending(s) ==
    LET s0 == [s EXCEPT !.log = <<>>]
        stop == SelectSeq([i \in 1..Len(s.ts) |-> IF s.ts[i].kind = "iv" THEN <<"clear", s.ts[i].id>> ELSE <<>>], LAMBDA o : o # <<>>)
        T == Call(s0, <<"tx", stop>>)
        U == Advance([T EXCEPT !.log = <<>>], T.now + 50) IN
    [st |-> U, steps |-> << [do |-> <<"app", <<"tx", stop>>>>, log |-> T.log, now |-> T.now],
                            [do |-> <<"wait", 50>>, log |-> U.log, now |-> U.now] >>]

-----------------------------------------------------------------------------
\* what F03 promises, on the state
\* an interval has fired once per period since it was set, while it lived
Steady(s) == \A i \in DOMAIN s.iv : s.iv[i].live =>
                LET due == (s.now - s.iv[i].from) \div Later(s.iv[i].per, 1) IN
                /\ s.iv[i].n <= due
                /\ (\A j \in DOMAIN s.ts : s.ts[j].at > s.now) => s.iv[i].n = due
Armed(s) == \A i \in DOMAIN s.iv :
               Cardinality({j \in DOMAIN s.ts : s.ts[j].kind = "iv" /\ s.ts[j].id = i}) = IF s.iv[i].live THEN 1 ELSE 0
\* nobody waits for something that has happened already, and whoever waits will be woken
Woken(s) == \A t \in DOMAIN s.tk : \A b \in s.tk[t].wait :
              \/ s.bx[b].full /\ \E j \in DOMAIN s.ts : s.ts[j].kind = "poll" /\ s.ts[j].id = t
              \/ s.bx[b].waker = t
\* timers are never in the past
Future(s) == \A j \in DOMAIN s.ts : s.ts[j].at >= s.now
\* once nothing is pending, every future which waits for nothing that others must send has ended
Done(s) == s.ts = <<>> => \A t \in DOMAIN s.tk : s.tk[t].pc = 0 \/ \E b \in s.tk[t].wait : b < 100 /\ ~s.bx[b].full
\* watchers know the present
Told(s) == \A w \in DOMAIN s.wt : s.wt[w].live => s.wt[w].last = Seen(s, w)
=============================================================================
