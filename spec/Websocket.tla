----------------------------- MODULE Websocket -----------------------------
(* Websocket connections (F05): each handle has one socket after another, and *)
(* hears of what happens on them in the order it happens.                     *)
EXTENDS Loop

Timeout == 5000
Retry == 3000

\* h: handles by name (st: "conn" attempt under way, "open", "retry" waiting to try again, "gone" given up by the application;
\* n: number of the attempt; at, seq: when the attempt or the wait ends, and the order of timers set; oo, om: what the
\* application does when it hears of the connection, of a message); sock: what was asked of the sockets in this step
InitState == [now |-> 0, seq |-> 0, h |-> <<>>, log |-> <<>>, sock |-> <<>>]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Sock(s, e) == [s EXCEPT !.sock = Append(@, e)]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Is(s, k, st) == k \in DOMAIN s.h /\ s.h[k].st \in st

Attempt(s, k, n) == Sock([s EXCEPT !.h[k].st = "conn", !.h[k].n = n, !.h[k].at = s.now + Timeout, !.h[k].seq = s.seq + 1, !.seq = @ + 1], <<"new", k, n>>)
Wait(s, k) == [s EXCEPT !.h[k].st = "retry", !.h[k].at = s.now + Retry, !.h[k].seq = s.seq + 1, !.seq = @ + 1]

Op(s, o) ==
    CASE o[1] = "log" -> Say(s, <<"log", o[2]>>)
      [] o[1] = "ws" -> Attempt([s EXCEPT !.h = Put(@, o[2], [st |-> "conn", n |-> 1, at |-> 0, seq |-> 0, oo |-> o[4], om |-> o[5]])], o[2], 1)
      \* goes to the open socket, if there is one
      [] o[1] = "wssend" -> IF Is(s, o[2], {"open"}) THEN Sock(s, <<"send", o[2], s.h[o[2]].n, o[3]>>) ELSE s
      [] o[1] = "wsdrop" -> IF Is(s, o[2], {"conn", "open"}) THEN [Sock(s, <<"close", o[2], s.h[o[2]].n>>) EXCEPT !.h[o[2]].st = "gone"]
                            ELSE IF Is(s, o[2], {"retry"}) THEN [s EXCEPT !.h[o[2]].st = "gone"] ELSE s
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))

\* what can happen on the current socket of a handle
Can(s, h) == IF h[3] \in {"open"} THEN Is(s, h[2], {"conn"}) ELSE IF h[3] = "msg" THEN Is(s, h[2], {"open"}) ELSE Is(s, h[2], {"conn", "open"})
Event(s, k, what, data) ==
    CASE what = "open" -> Ops(Say([s EXCEPT !.h[k].st = "open"], <<"ws", k, "open">>), s.h[k].oo)
      [] what = "msg" -> Ops(Say(s, <<"ws", k, "msg", data>>), s.h[k].om)
      [] what \in {"close", "error"} -> Wait(IF s.h[k].st = "open" THEN Say(s, <<"ws", k, "close">>) ELSE s, k)

\* time passes until then
Due(s, end) == {k \in DOMAIN s.h : s.h[k].st \in {"conn", "retry"} /\ s.h[k].at <= end}
RECURSIVE Advance(_, _)
Advance(s, end) ==
    IF Due(s, end) = {} THEN [s EXCEPT !.now = end]
    ELSE LET k == CHOOSE x \in Due(s, end) : \A y \in Due(s, end) : s.h[x].at < s.h[y].at \/ (s.h[x].at = s.h[y].at /\ s.h[x].seq <= s.h[y].seq)
             T == [s EXCEPT !.now = Later(@, s.h[k].at)] IN
         Advance(IF s.h[k].st = "retry" THEN Attempt(T, k, T.h[k].n + 1) ELSE Wait(Sock(T, <<"close", k, T.h[k].n>>), k), end)

Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.sock = <<>>] IN
    CASE h[1] = "app" /\ h[2][1] = "tx" -> Ops(T, h[2][2])
      [] h[1] = "app" /\ h[2][1] # "tx" -> Op(T, h[2])
      [] h[1] = "wait" -> Advance(T, T.now + h[2])
      [] h[1] = "sock" -> Event(T, h[2], h[3], h[4])
      \* several messages before the application had a chance to look at the first
      [] h[1] = "drain" -> T
Open(s) == {<<k, s.h[k].n>> : k \in {x \in DOMAIN s.h : s.h[x].st \in {"conn", "open"}}}
\* the sockets of different handles are independent: the order among them is not compared
Record(h, t) == [do |-> h, log |-> t.log, sock |-> t.sock, open |-> Open(t), now |-> t.now]

-----------------------------------------------------------------------------
\* F05 on the state and on the log of a history
OneEach(s) == \A k \in DOMAIN s.h : s.h[k].n >= 1 /\ (s.h[k].st \in {"conn", "retry"} => s.h[k].at > s.now \/ s.h[k].at = s.now)
\* of(k): all that happened on sockets of k, in order
Of(hist, k) == LET f[i \in 0..Len(hist)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o SelectSeq(hist[i].sock, LAMBDA e : e[2] = k) IN f[Len(hist)]
Heard(hist, k) == LET f[i \in 0..Len(hist)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o SelectSeq(hist[i].log, LAMBDA e : e[1] = "ws" /\ e[2] = k) IN f[Len(hist)]
\* connection, messages, disconnection, connection, ...
InOrder(q) == \A i \in DOMAIN q : IF q[i][3] = "open" THEN i = 1 \/ q[i - 1][3] = "close" ELSE i > 1 /\ q[i - 1][3] # "close"
\* attempts are numbered one after the other and nothing but the close follows for an older one
Fresh(q) == \A i \in DOMAIN q : \A j \in i..Len(q) : q[j][3] >= q[i][3] /\ (q[i][1] = "close" => q[j][3] > q[i][3] \/ i = j)
\* after the application gave up its handle: nothing
Gone(hist, k) == \A i \in DOMAIN hist : (hist[i].do[1] = "app" /\ hist[i].do[2] = <<"wsdrop", k>>) =>
                     \A j \in (i + 1)..Len(hist) : SelectSeq(hist[j].sock, LAMBDA e : e[2] = k) = <<>> /\ SelectSeq(hist[j].log, LAMBDA e : e[1] = "ws" /\ e[2] = k) = <<>>
Good1(s, hist) == OneEach(s) /\ \A k \in DOMAIN s.h : InOrder(Heard(hist, k)) /\ Fresh(Of(hist, k)) /\ Gone(hist, k)
=============================================================================
