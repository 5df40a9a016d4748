-------------------------------- MODULE Watch --------------------------------
(* vertigo watch: from changes of the sources to what the open pages show.     *)
(* A build can't be interrupted: the next one starts after it has ended.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* src, bad: the sources now; saw, sawbad: those of the build n; ph: "cargo", "opt", "serving", "failed"; again: the sources have changed since
\* page: what the last build which has been served shows; tabs: id -> [page, note, conn, n (of the page)]
InitState(opt, tabs) ==
    [src |-> 1, bad |-> FALSE, saw |-> 1, sawbad |-> FALSE, ph |-> "cargo", again |-> FALSE, n |-> 1, opt |-> opt, page |-> 0,
     tabs |-> [t \in tabs |-> [page |-> 0, note |-> "", conn |-> FALSE, n |-> 0]]]
Opened(s) == {t \in DOMAIN s.tabs : s.tabs[t].page > 0}
Live(s) == {t \in Opened(s) : s.tabs[t].conn}
Tell(s, note) == [s EXCEPT !.tabs = [t \in DOMAIN @ |-> IF t \in Live(s) THEN [@[t] EXCEPT !.note = note] ELSE @[t]]]
Busy(s) == s.ph \in {"cargo", "opt"}

Begin(s) == Tell([s EXCEPT !.ph = "cargo", !.again = FALSE, !.saw = s.src, !.sawbad = s.bad, !.n = @ + 1], "building")
Serve(s) == [s EXCEPT !.ph = "serving", !.page = s.saw, !.tabs = [t \in DOMAIN @ |-> IF t \in Live(s) THEN [page |-> s.saw, note |-> "", conn |-> TRUE, n |-> s.n] ELSE @[t]]]
\* a build which has been superseded is not served
End(s) == IF s.again THEN Begin(s) ELSE Serve(s)
Finish(s) ==
    IF s.sawbad THEN IF s.again THEN Begin(s) ELSE Tell([s EXCEPT !.ph = "failed"], "errors")
    ELSE IF s.opt THEN [s EXCEPT !.ph = "opt"] ELSE End(s)
Edit(s, bad) ==
    LET T == [s EXCEPT !.src = @ + 1, !.bad = bad] IN IF Busy(s) THEN [T EXCEPT !.again = TRUE] ELSE Begin(T)
Connect(s, t) == [s EXCEPT !.tabs[t].conn = TRUE, !.tabs[t].note = CASE Busy(s) -> "building" [] s.ph = "failed" -> "errors" [] OTHER -> ""]

Can(s, h) ==
    CASE h.k \in {"edit", "noise"} -> TRUE
      [] h.k = "finish" -> s.ph = "cargo"
      [] h.k = "optdone" -> s.ph = "opt"
      [] h.k \in {"open", "openslow"} -> s.ph = "serving" /\ s.tabs[h.t].page = 0
      \* a page of another build than the one which is being served has missed the news
      [] h.k = "connect" -> s.tabs[h.t].page > 0 /\ ~s.tabs[h.t].conn /\ (s.ph = "serving" => s.tabs[h.t].n = s.n)
      [] h.k = "reload" -> s.ph = "serving" /\ s.tabs[h.t].page > 0
      [] h.k = "dismiss" -> s.tabs[h.t].note = "errors"
      [] h.k = "close" -> s.tabs[h.t].page > 0
\* h: edit (how, bad), noise (how), finish, optdone, open, openslow, connect, reload, dismiss, close (t)
Apply(s, h) ==
    CASE h.k = "edit" -> Edit(s, h.bad)
      [] h.k = "noise" -> s
      [] h.k = "finish" -> Finish(s)
      [] h.k = "optdone" -> End(s)
      [] h.k \in {"open", "reload"} -> [s EXCEPT !.tabs[h.t] = [page |-> s.page, note |-> "", conn |-> TRUE, n |-> s.n]]
      [] h.k = "openslow" -> [s EXCEPT !.tabs[h.t] = [page |-> s.page, note |-> "", conn |-> FALSE, n |-> s.n]]
      [] h.k = "connect" -> Connect(s, h.t)
      [] h.k = "dismiss" -> [s EXCEPT !.tabs[h.t].note = ""]
      [] h.k = "close" -> [s EXCEPT !.tabs[h.t] = [page |-> 0, note |-> "", conn |-> FALSE, n |-> 0]]
Record(h, t) == [do |-> h, ph |-> t.ph, n |-> t.n, saw |-> t.saw, src |-> t.src, bad |-> t.bad, page |-> t.page,
                 tabs |-> [x \in DOMAIN t.tabs |-> [page |-> t.tabs[x].page, note |-> t.tabs[x].note, conn |-> t.tabs[x].conn]]]

-----------------------------------------------------------------------------
\* what is served, and every connected page, shows the sources as they are; nothing is served which does not
Shown(s) == s.ph = "serving" => s.page = s.src /\ ~s.bad /\ \A t \in Live(s) : s.tabs[t].page = s.src /\ s.tabs[t].note = ""
Told(s) == s.ph = "failed" => s.bad /\ s.saw = s.src
\* a change is never forgotten
Pending(s) == s.saw # s.src => Busy(s) /\ s.again
Good(s) == Shown(s) /\ Told(s) /\ Pending(s) /\ (s.again => Busy(s))
=============================================================================
