-------------------------------- MODULE Build --------------------------------
(* vertigo build and vertigo new: what they leave in the file system.          *)
(* Cargo compiles a package again only when its sources (or vertigo) have      *)
(* changed or its library file is missing; included files are written when it  *)
(* compiles.  Texts of files say what they are made of.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* pkgs: the members of the workspace in order [n, u: the name of its files, cdylib]; src, asset: versions; broken; js: version of vertigo
\* comp: what has been compiled last [src, asset, pub, js]; rlib: whether its library file is there; incl: included files there
\* target: the wasm target is installed; opt: wasm-opt is "none", "ok" or fails; dest: directory -> files or <<"none">>
\* news: directories for new projects -> "none", "file", or files
InitState(pkgs, place, dests, names) ==
    [pkgs |-> pkgs, place |-> place, src |-> [i \in DOMAIN pkgs |-> 1], asset |-> [i \in DOMAIN pkgs |-> 1], broken |-> [i \in DOMAIN pkgs |-> FALSE], js |-> 1, lastjs |-> 0,
     comp |-> [i \in DOMAIN pkgs |-> <<>>], incl |-> {}, target |-> TRUE, opt |-> "none", dest |-> [d \in dests |-> [k |-> "none", f |-> {}]], news |-> [d \in names |-> [k |-> "none", f |-> {}]],
     code |-> 0, added |-> FALSE]

File(s, e, x) == [s |-> s, e |-> e, h |-> TRUE, x |-> x]       \* named by its content
Named(n, x) == [s |-> n, e |-> "", h |-> FALSE, x |-> x]
Wasm(p, c) == "wasm " \o p.n \o " " \o ToString(c.src) \o " " \o ToString(c.asset) \o " " \o c.pub \o " " \o ToString(c.js)
Asset(p, v) == File("asset-" \o p.n, "txt", "asset " \o p.n \o " " \o ToString(v))
Js(v) == File("wasm_run", "js", "js " \o ToString(v))

Candidates(s) == {i \in DOMAIN s.pkgs : s.pkgs[i].cdylib}
Chosen(s, name) == IF name = "" THEN IF Candidates(s) = {} THEN 0 ELSE CHOOSE i \in Candidates(s) : \A j \in Candidates(s) : i <= j
                   ELSE IF \E i \in DOMAIN s.pkgs : s.pkgs[i].n = name THEN CHOOSE i \in DOMAIN s.pkgs : s.pkgs[i].n = name ELSE -1

\* the library file is removed before, so it is always compiled
Compile(s, i, pub) ==
    LET c == [src |-> s.src[i], asset |-> s.asset[i], pub |-> pub, js |-> s.js] IN
    [s EXCEPT !.comp[i] = c, !.lastjs = s.js, !.incl = (IF s.lastjs # s.js THEN {} ELSE @) \cup {Asset(s.pkgs[i], s.asset[i])}]
\* h: pkg, pub, noopt, map, dest
Published(s, i, h) ==
    LET raw == Wasm(s.pkgs[i], s.comp[i])
        w == File(s.pkgs[i].u, "wasm", IF ~h.noopt /\ s.opt = "ok" THEN "opt(" \o raw \o ")" ELSE raw) IN
    {Js(s.js), w, [s |-> "index.json", e |-> "", h |-> FALSE, x |-> h.pub, run |-> Js(s.js), wasm |-> w]}
    \cup s.incl \cup (IF h.map THEN {[s |-> "wasm_run.js.map", e |-> "", h |-> FALSE, x |-> "map " \o ToString(s.js), of |-> Js(s.js)]} ELSE {})
Build(s, h) ==
    LET i == Chosen(s, h.pkg) IN
    IF i = 0 THEN [s EXCEPT !.code = 1, !.added = FALSE]
    ELSE LET A == [s EXCEPT !.added = ~s.target, !.target = TRUE] IN
         IF i = -1 \/ (i > 0 /\ s.broken[i]) THEN [A EXCEPT !.code = 1, !.dest[h.dest] = [k |-> "unservable", f |-> {}]]
         ELSE LET T == Compile(A, i, h.pub) IN [T EXCEPT !.code = 0, !.dest[h.dest] = [k |-> "dir", f |-> Published(T, i, h)]]

\* the files of the template, with the name of the project
Stub(name) == {Named("", "template " \o name)}
New(s, n) ==
    IF s.news[n].k = "none" \/ (s.news[n].k = "dir" /\ s.news[n].f = {}) THEN [s EXCEPT !.code = 0, !.news[n] = [k |-> "dir", f |-> Stub(n)]]
    ELSE [s EXCEPT !.code = 1]

Apply(s, h) ==
    LET T == [s EXCEPT !.code = 0, !.added = FALSE] IN
    CASE h.k = "build" -> Build(T, h)
      [] h.k = "new" -> New(T, h.n)
      [] h.k = "edit" -> [T EXCEPT !.src[h.i] = @ + 1, !.broken[h.i] = h.bad]
      [] h.k = "asset" -> [T EXCEPT !.asset[h.i] = h.v]
      [] h.k = "vertigo" -> [T EXCEPT !.js = @ + 1]
      [] h.k = "target" -> [T EXCEPT !.target = FALSE]
      [] h.k = "opt" -> [T EXCEPT !.opt = h.v]
      \* somebody writes into a directory
      [] h.k = "junk" -> [T EXCEPT !.dest[h.d] = [k |-> IF @.k = "unservable" THEN "unservable" ELSE "dir", f |-> @.f \cup {Named(h.n, "junk")}]]
      [] h.k = "make" -> [T EXCEPT !.news[h.n] = IF h.v = "file" THEN [k |-> "file", f |-> {}] ELSE [k |-> "dir", f |-> IF h.v = "empty" THEN {} ELSE {Named(h.v, "junk")}]]
Record(h, t) == [do |-> h, code |-> t.code, added |-> t.added, dest |-> t.dest, news |-> t.news, comp |-> t.comp]

-----------------------------------------------------------------------------
\* what W01 promises, on the state: what has just been published is what the sources say now
Fresh(s, h, t) ==
    (h.k = "build" /\ t.code = 0) =>
        LET i == Chosen(s, h.pkg) f == t.dest[h.dest].f IN
        /\ t.comp[i].src = s.src[i] /\ t.comp[i].asset = s.asset[i] /\ t.comp[i].pub = h.pub /\ ~s.broken[i]
        /\ Js(s.js) \in f /\ Asset(s.pkgs[i], s.asset[i]) \in f
        /\ \E x \in f : x.s = "index.json" /\ x.run \in f /\ x.wasm \in f
        /\ \A x, y \in f : (x.s = y.s /\ x.e = y.e /\ x.e \in {"js", "wasm"}) => x = y
        /\ \A d \in DOMAIN s.dest \ {h.dest} : t.dest[d] = s.dest[d]
Servable(d) == d.k = "dir" /\ \E x \in d.f : x.s = "index.json"
Failed(s, h, t) == (h.k = "build" /\ t.code # 0) => (~Servable(t.dest[h.dest]) \/ t.dest = s.dest)
Kept(s, h, t) == h.k = "new" => \A n \in DOMAIN s.news : (n # h.n \/ t.code # 0) => t.news[n] = s.news[n]
GoodStep(s, h, t) == Fresh(s, h, t) /\ Failed(s, h, t) /\ Kept(s, h, t)
=============================================================================
