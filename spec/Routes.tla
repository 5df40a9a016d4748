------------------------------- MODULE Routes --------------------------------
(* The server decides what answers a request: the directory of built files,   *)
(* a proxy, or the application which renders a page.                          *)
(*                                                                            *)
(* A path is a list of segments as they are written in the request (nothing   *)
(* is decoded before it is known who answers).  The mount point and the       *)
(* proxies own everything below their prefix; the longest prefix wins.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT MaxLen

Mounts == {<<"build">>, <<"a", "b">>, <<"x-y.z">>}
\* proxies: [at: prefix, to: path of the target on the other server]
P(at, to) == [at |-> at, to |-> to]
ProxySets(m) ==
    {<<>>,
     <<P(<<"api">>, <<"t1">>)>>,
     <<P(<<"api">>, <<"t1">>), P(<<"api", "v2">>, <<"t2", "deep">>)>>,
     <<P(<<"buildx">>, <<>>), P(<<"a">>, <<"t3">>)>>,
     <<P(Append(m, "api"), <<"t4">>), P(<<"api">>, <<>>)>>}
\* the built files: the segments of the request, the name in the file system
Files == {[s |-> <<"x.txt">>, n |-> "x.txt"], [s |-> <<"sub", "inner.txt">>, n |-> "sub/inner.txt"],
          [s |-> <<"%C5%BE%20y">>, n |-> "~z y"], [s |-> <<"api.js">>, n |-> "api.js"]}
Configs == {[mount |-> m, proxies |-> ps] : m \in Mounts, ps \in UNION {ProxySets(n) : n \in Mounts}}
Sane(c) == \A i, j \in DOMAIN c.proxies : c.proxies[i].at # c.mount /\ (c.proxies[i].at = c.proxies[j].at => i = j)

\* what requests are made of
Words(c) == {"x.txt", "sub", "inner.txt", "%C5%BE%20y", "api.js", "..", "%2e%2e", ".", "..%2fsecret.txt", "nope", "buildx", "%62uild", "v2", "api"}
            \cup {c.mount[i] : i \in DOMAIN c.mount} \cup (IF c.proxies = <<>> THEN {} ELSE {"a%20b"})
Dots == {"..", "%2e%2e", ".", "..%2fsecret.txt"}

Begins(path, pre) == Len(path) >= Len(pre) /\ SubSeq(path, 1, Len(pre)) = pre
Rest(path, pre) == SubSeq(path, Len(pre) + 1, Len(path))
Owners(c, path) ==
    {[k |-> "mount", at |-> c.mount, i |-> 0] : x \in IF Begins(path, c.mount) THEN {1} ELSE {}}
    \cup {[k |-> "proxy", at |-> c.proxies[i].at, i |-> i] : i \in {j \in DOMAIN c.proxies : Begins(path, c.proxies[j].at)}}
Owner(c, path) == CHOOSE o \in Owners(c, path) : \A q \in Owners(c, path) : Len(q.at) <= Len(o.at)

\* who answers, and with what; "safe": something inside the directory or nothing; "any": not said
Outcome(c, path, slash) ==
    IF Owners(c, path) = {} THEN [k |-> "page"]
    ELSE LET o == Owner(c, path) rest == Rest(path, o.at) IN
         IF o.k = "proxy" THEN
             IF \E i \in DOMAIN rest : rest[i] \in Dots THEN [k |-> "any"]
             ELSE [k |-> "proxy", i |-> o.i, to |-> c.proxies[o.i].to \o rest, bare |-> rest = <<>> /\ ~slash]
         ELSE IF (\E i \in DOMAIN rest : rest[i] \in Dots) \/ slash \/ rest = <<>> THEN [k |-> "safe"]
         ELSE IF \E f \in Files : f.s = rest THEN [k |-> "file", n |-> (CHOOSE f \in Files : f.s = rest).n]
         ELSE IF \E f \in Files : Begins(f.s, rest) THEN [k |-> "safe"]
         ELSE [k |-> "missing"]

VARIABLES config, path, done
vars == <<config, path, done>>
Init == config \in {c \in Configs : Sane(c)} /\ path = <<>> /\ done = FALSE
Longer == /\ ~done /\ Len(path) < MaxLen
          /\ \E w \in Words(config) : path' = Append(path, w)
          /\ UNCHANGED <<config, done>>
Ask == /\ ~done /\ done' = TRUE
       /\ PrintT("@@" \o ToJson([config |-> config, path |-> path, plain |-> Outcome(config, path, FALSE), slash |-> Outcome(config, path, TRUE)]))
       /\ UNCHANGED <<config, path>>
Next == Longer \/ Ask
Spec == Init /\ [][Next]_vars

Good == \A slash \in BOOLEAN : LET o == Outcome(config, path, slash) IN
    \* a file is only served below the mount point, under its name
    /\ o.k = "file" => Begins(path, config.mount) /\ \E f \in Files : f.n = o.n /\ path = config.mount \o f.s
    \* nothing which leaves the directory is served
    /\ (Begins(path, config.mount) /\ \E i \in DOMAIN path : i > Len(config.mount) /\ path[i] \in {"..", "%2e%2e", "..%2fsecret.txt"}) => o.k \in {"safe", "any", "proxy"}
    \* a page is rendered exactly when nobody owns the path
    /\ o.k = "page" <=> ~Begins(path, config.mount) /\ \A i \in DOMAIN config.proxies : ~Begins(path, config.proxies[i].at)
    \* the most specific proxy is asked, for what is left of the path
    /\ o.k = "proxy" => LET p == config.proxies[o.i] IN
         /\ path = p.at \o SubSeq(o.to, Len(p.to) + 1, Len(o.to))
         /\ \A j \in DOMAIN config.proxies : Begins(path, config.proxies[j].at) => Len(config.proxies[j].at) <= Len(p.at)
         /\ Begins(path, config.mount) => Len(config.mount) < Len(p.at)
=============================================================================
