------------------------------- MODULE Bridge ------------------------------
(* The values which cross the border of the module (B01): what an application *)
(* and the page see of each other's values when the application works on      *)
(* objects of the page (reading, writing, calling, on a path of properties)   *)
(* and when it exchanges JSON with a server.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Values are tagged sequences; numbers are kept as texts.                    *)
(* of the application: u32 i32 u64 i64 f64 bool null undef bytes str list obj *)
(*    json, and kept (received earlier); -n stands for many of the same.      *)
(* of the page ("plain"): num big bool null undef bytes str list obj          *)
Num(v) == v[1] \in {"u32", "i32", "f64"}
Big(v) == v[1] \in {"u64", "i64"}
Kept(kept, k) == kept[k]

\* what the page sees of a value of the application
RECURSIVE Plain(_, _)
Plain(kept, v) ==
    CASE Num(v) -> <<"num", v[2]>>
      [] Big(v) -> <<"big", v[2]>>
      [] v[1] = "list" -> <<"list", [i \in DOMAIN v[2] |-> Plain(kept, v[2][i])]>>
      [] v[1] = "obj" -> <<"obj", [i \in DOMAIN v[2] |-> <<v[2][i][1], Plain(kept, v[2][i][2])>>]>>
      [] v[1] \in {"listn", "objn"} -> <<v[1], v[2], Plain(kept, v[3])>>
      [] v[1] = "json" -> v[2]
      [] v[1] = "kept" -> Kept(kept, v[2])
      [] OTHER -> v
\* what the application sees of a value of the page, the kinds of numbers and of containers which it uses for that not being promised
Seen(p) == p

-----------------------------------------------------------------------------
(* The wire: every value as its kind and what it needs; the counts are whole  *)
(* numbers of a fixed width.                                                  *)
Digits(n, w) == [i \in 1..w |-> (n \div (256 ^ (w - i))) % 256]
Tag == [u32 |-> 1, i32 |-> 2, u64 |-> 3, i64 |-> 4, f64 |-> 5, null |-> 8, undef |-> 9, bytes |-> 10, str |-> 11, list |-> 12, obj |-> 13]
RECURSIVE Enc(_), EncAll(_), EncKeys(_)
Enc(v) == CASE v[1] = "bool" -> IF v[2] THEN <<6>> ELSE <<7>>
            [] v[1] \in {"null", "undef"} -> <<Tag[v[1]]>>
            [] v[1] = "bytes" -> <<10>> \o Digits(Len(v[2]), 4) \o v[2]
            [] v[1] = "list" -> <<12>> \o Digits(Len(v[2]), 4) \o EncAll(v[2])
            [] v[1] = "obj" -> <<13>> \o Digits(Len(v[2]), 4) \o EncKeys(v[2])
            [] OTHER -> <<Tag[v[1]], v[2]>>
EncAll(l) == IF l = <<>> THEN <<>> ELSE Enc(Head(l)) \o EncAll(Tail(l))
EncKeys(l) == IF l = <<>> THEN <<>> ELSE <<Head(l)[1]>> \o Enc(Head(l)[2]) \o EncKeys(Tail(l))
Kind(t) == CHOOSE k \in DOMAIN Tag : Tag[k] = t
Count(b, i) == b[i] * (256 ^ 3) + b[i + 1] * (256 ^ 2) + b[i + 2] * 256 + b[i + 3]
\* the value which begins at i, and where the next one begins
RECURSIVE Dec(_, _), DecAll(_, _, _), DecKeys(_, _, _)
Dec(b, i) ==
    CASE b[i] = 6 -> <<<<"bool", TRUE>>, i + 1>>
      [] b[i] = 7 -> <<<<"bool", FALSE>>, i + 1>>
      [] b[i] \in {8, 9} -> <<<<Kind(b[i])>>, i + 1>>
      [] b[i] = 10 -> LET n == Count(b, i + 1) IN <<<<"bytes", SubSeq(b, i + 5, i + 4 + n)>>, i + 5 + n>>
      [] b[i] = 12 -> LET r == DecAll(b, i + 5, Count(b, i + 1)) IN <<<<"list", r[1]>>, r[2]>>
      [] b[i] = 13 -> LET r == DecKeys(b, i + 5, Count(b, i + 1)) IN <<<<"obj", r[1]>>, r[2]>>
      [] OTHER -> <<<<Kind(b[i]), b[i + 1]>>, i + 2>>
DecAll(b, i, n) == IF n = 0 THEN <<<<>>, i>> ELSE LET x == Dec(b, i) r == DecAll(b, x[2], n - 1) IN <<<<x[1]>> \o r[1], r[2]>>
DecKeys(b, i, n) == IF n = 0 THEN <<<<>>, i>> ELSE LET x == Dec(b, i + 1) r == DecKeys(b, x[2], n - 1) IN <<<<<<b[i], x[1]>>>> \o r[1], r[2]>>
RECURSIVE OnWire(_)
\* values which are not abbreviations
OnWire(v) == CASE v[1] = "list" -> \A i \in DOMAIN v[2] : OnWire(v[2][i])
               [] v[1] = "obj" -> \A i \in DOMAIN v[2] : OnWire(v[2][i][2])
               [] OTHER -> v[1] \in DOMAIN Tag \cup {"bool"}
Carried(v) == OnWire(v) => LET b == Enc(v) IN Dec(b, 1) = <<v, Len(b) + 1>>

-----------------------------------------------------------------------------
(* The objects of the page: w (window), d (document), e (an element), each    *)
(* with properties a, b, c; and what the application has received and kept.   *)
Roots == {"w", "d", "e"}
Props == {"a", "b", "c"}
InitState == [js |-> [r \in Roots |-> [p \in Props |-> <<"undef">>]], kept |-> <<>>, asked |-> FALSE, log |-> <<>>, post |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

KeyOf(l, k) == IF \E i \in DOMAIN l : l[i][1] = k THEN CHOOSE i \in DOMAIN l : l[i][1] = k ELSE 0
\* a property of a value
Child(p, k) == CASE p[1] = "obj" -> IF KeyOf(p[2], k) = 0 THEN <<"undef">> ELSE p[2][KeyOf(p[2], k)][2]
                 [] p[1] = "list" -> IF k = "length" THEN <<"num", ToString(Len(p[2]))>> ELSE IF k \in {ToString(i - 1) : i \in DOMAIN p[2]} THEN p[2][CHOOSE i \in DOMAIN p[2] : ToString(i - 1) = k] ELSE <<"undef">>
RECURSIVE Down(_, _)
Down(p, path) == IF path = <<>> THEN p ELSE Down(Child(p, Head(path)), Tail(path))
With(p, k, v) == CASE p[1] = "obj" -> IF KeyOf(p[2], k) = 0 THEN <<"obj", Append(p[2], <<k, v>>)>> ELSE <<"obj", [p[2] EXCEPT ![KeyOf(p[2], k)] = <<k, v>>]>>
                   [] p[1] = "list" -> <<"list", [i \in DOMAIN p[2] |-> IF ToString(i - 1) = k THEN v ELSE p[2][i]]>>
RECURSIVE Changed(_, _, _, _)
Changed(p, path, k, v) == IF path = <<>> THEN With(p, k, v) ELSE With(p, Head(path), Changed(Child(p, Head(path)), Tail(path), k, v))

\* the first of a path is the root, the second a property of the root
At(s, path) == Down(s.js[path[1]][path[2]], SubSeq(path, 3, Len(path)))
Of(s, path, k) == IF Len(path) = 1 THEN s.js[path[1]][k] ELSE Child(At(s, path), k)
Got(s, keep, p) == [s EXCEPT !.log = Append(@, <<"got", Seen(p)>>), !.kept = IF keep = "" THEN @ ELSE Put(@, keep, Seen(p))]
\* the functions which the page offers on each of the three objects
Called(s, r, f, args) ==
    LET a == [i \in DOMAIN args |-> Plain(s.kept, args[i])] IN
    CASE f = "first" -> [s |-> s, r |-> IF a = <<>> THEN <<"undef">> ELSE a[1]]
      [] f = "args" -> [s |-> s, r |-> <<"list", a>>]
      [] f = "pair" -> [s |-> s, r |-> <<"obj", <<<<"x", IF a = <<>> THEN <<"undef">> ELSE a[1]>>, <<"n", <<"num", ToString(Len(a))>>>>>>>>]
      [] f = "store" -> [s |-> [s EXCEPT !.js[r]["c"] = IF a = <<>> THEN <<"undef">> ELSE a[1]], r |-> <<"num", ToString(Len(a))>>]
Op(s, o) ==
    CASE o[1] = "set" -> IF Len(o[2]) = 1 THEN [s EXCEPT !.js[o[2][1]][o[3]] = Plain(s.kept, o[4])]
                         ELSE [s EXCEPT !.js[o[2][1]][o[2][2]] = Changed(@, SubSeq(o[2], 3, Len(o[2])), o[3], Plain(s.kept, o[4]))]
      [] o[1] = "get" -> Got(s, o[4], Of(s, o[2], o[3]))
      [] o[1] = "whole" -> Got(s, o[3], At(s, o[2]))
      [] o[1] = "props" -> Got(s, o[4], <<"obj", [i \in DOMAIN o[3] |-> <<o[3][i], Of(s, o[2], o[3][i])>>]>>)
      [] o[1] = "call" -> LET c == Called(s, o[2][1], o[3], o[4]) IN Got(c.s, o[5], c.r)
      \* window!("a"), window!("args()", x, y)
      [] o[1] = "macro" -> IF o[3] = "args()" THEN Got(s, o[4], <<"list", <<Plain(s.kept, o[5]), Plain(s.kept, o[6])>>>>) ELSE Got(s, o[4], s.js["w"][o[3]])
      [] o[1] = "post" -> [s EXCEPT !.post = <<Plain(s.kept, <<"json", o[3]>>)>>, !.asked = TRUE]
\* do: app - an operation of the application; js - the page assigns a property; reply - the server answers the request with JSON
Apply(s, h) ==
    LET T == [s EXCEPT !.log = <<>>, !.post = <<>>] IN
    CASE h[1] = "app" -> Op(T, h[2])
      [] h[1] = "js" -> [T EXCEPT !.js[h[2]][h[3]] = h[4]]
      [] h[1] = "reply" -> [T EXCEPT !.asked = FALSE, !.log = <<<<"answer", h[2]>>>>]
Record(h, s) == [do |-> h, log |-> s.log, post |-> s.post, js |-> s.js]

-----------------------------------------------------------------------------
\* B01: whatever was sent and received back is what it was; a value which went to the page is seen there as what it was
Whole(s, s0, h) ==
    h[1] = "app" =>
      LET o == h[2] IN
      CASE o[1] = "set" -> Of(s, o[2], o[3]) = Plain(s0.kept, o[4]) \/ (Len(o[2]) > 1 /\ At(s0, o[2])[1] = "list")
        [] o[1] = "call" /\ o[3] = "first" /\ o[4] # <<>> -> s.log = <<<<"got", Plain(s0.kept, o[4][1])>>>> /\ s.js = s0.js
        [] o[1] \in {"get", "props", "whole", "macro"} -> s.js = s0.js
        [] OTHER -> TRUE
=============================================================================
