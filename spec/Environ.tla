------------------------------ MODULE Environ ------------------------------
(* What the application knows about where it runs (F07): the clock and         *)
(* instants, the time zone, chance, environment variables, and the log.        *)
(* Clocks are in milliseconds since the start; the visitor may set his clock.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Vars: environment variables of this run (name -> text)
InitState(vars) == [vars |-> vars, now |-> 0, tz |-> 0, inst |-> <<>>, log |-> <<>>, con |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Say(s, e) == [s EXCEPT !.log = Append(@, e)]
Max(a, b) == IF a >= b THEN a ELSE b

\* bounds of chance (texts: they are beyond the integers of the model), and all values if there are few
Ranges == ("one" :> [min |-> "7", max |-> "7", all |-> <<"7">>]) @@ ("coin" :> [min |-> "0", max |-> "1", all |-> <<"0", "1">>])
       @@ ("dice" :> [min |-> "1", max |-> "6", all |-> <<"1", "2", "3", "4", "5", "6">>]) @@ ("wide" :> [min |-> "10", max |-> "1000010", all |-> <<>>])
       @@ ("edge" :> [min |-> "2147483646", max |-> "2147483649", all |-> <<"2147483646", "2147483647", "2147483648", "2147483649">>])
       @@ ("top" :> [min |-> "4294967293", max |-> "4294967295", all |-> <<"4294967293", "4294967294", "4294967295">>])
       @@ ("every" :> [min |-> "0", max |-> "4294967295", all |-> <<>>]) @@ ("zero" :> [min |-> "0", max |-> "0", all |-> <<"0">>])
       @@ ("upper" :> [min |-> "2147483648", max |-> "4294967295", all |-> <<>>])
Rand(r) == <<"rand", Ranges[r].min, Ranges[r].max, Ranges[r].all>>

\* an instant: when it is (in the same clock)
Elapsed(s, i) == Max(0, s.now - s.inst[i])
Expired(s, i) == s.now > s.inst[i]
Seq1(n) == [k \in 1..n |-> k]
Level(l) == CASE l = "debug" -> "log" [] OTHER -> l
Op(s, o) ==
    CASE o[1] = "iset" -> [s EXCEPT !.inst = Put(@, o[2], s.now)]
      [] o[1] = "irefresh" -> IF o[3] \in DOMAIN s.inst THEN [s EXCEPT !.inst = Put(@, o[2], s.now)] ELSE s
      [] o[1] = "iadd" -> IF o[3] \in DOMAIN s.inst THEN [s EXCEPT !.inst = Put(@, o[2], @[o[3]] + o[4] \div 1000)] ELSE s     \* o[4]: microseconds
      [] o[1] = "iread" -> IF o[2] \notin DOMAIN s.inst THEN s
                           ELSE Say(s, <<"inst", o[2], s.inst[o[2]], Elapsed(s, o[2]), Elapsed(s, o[2]) \div 1000, Expired(s, o[2])>>)
      [] o[1] = "ieq" -> IF {o[2], o[3]} \subseteq DOMAIN s.inst THEN Say(s, <<"ieq", s.inst[o[2]] = s.inst[o[3]]>>) ELSE s
      [] o[1] = "utc" -> Say(s, <<"utc", s.now>>)
      [] o[1] = "tz" -> Say(s, <<"tz", -60 * s.tz>>)
      [] o[1] = "env" -> Say(s, <<"env", o[2], IF o[2] \in DOMAIN s.vars THEN <<s.vars[o[2]]>> ELSE <<>>>>)
      [] o[1] = "side" -> Say(s, <<"side", TRUE, FALSE>>)
      \* any value between the bounds, each of them possible
      [] o[1] = "rand" -> Say(s, <<"rand", o[2], o[3], o[4]>>)
      [] o[1] = "choose" -> Say(s, <<"choose", o[2], Seq1(o[2])>>)
      [] o[1] = "say" -> IF o[2] = "trace" THEN s ELSE [s EXCEPT !.con = Append(@, <<Level(o[2]), o[3]>>)]
RECURSIVE Ops(_, _)
Ops(s, q) == IF q = <<>> THEN s ELSE Ops(Op(s, Head(q)), Tail(q))
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.con = <<>>] IN
    CASE h[1] = "app" /\ h[2][1] = "tx" -> Ops(T, h[2][2])
      [] h[1] = "app" /\ h[2][1] # "tx" -> Op(T, h[2])
      [] h[1] = "wait" -> [T EXCEPT !.now = @ + h[2]]
      [] h[1] = "clock" -> [T EXCEPT !.now = @ + h[2]]      \* forwards or back
      [] h[1] = "zone" -> [T EXCEPT !.tz = h[2]]
Record(h, t) == [do |-> h, log |-> t.log, console |-> t.con]

-----------------------------------------------------------------------------
\* an instant which has expired lies behind; nothing has elapsed of one which lies ahead
Good1(s) == \A i \in DOMAIN s.inst : (Expired(s, i) <=> Elapsed(s, i) > 0) /\ Elapsed(s, i) >= 0
\* elapsed time never gets less while the clock runs (forwards) and the instant is the same
Forward(s, t, h) == h[1] \in {"wait"} => \A i \in DOMAIN s.inst : Elapsed(t, i) >= Elapsed(s, i) /\ (Expired(s, i) => Expired(t, i))
=============================================================================
