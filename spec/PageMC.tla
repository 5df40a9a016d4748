------------------------------- MODULE PageMC -------------------------------
(* Exhaustive: every sequence of up to N siblings over a set of small nodes   *)
(* of every kind, in several surroundings, taken through every change between *)
(* the states below (value and list change in one transaction).               *)
EXTENDS Page, Json
CONSTANTS N, Walk     \* Walk: "all" 10 states, "five" 5 states
VARIABLES tree, S, hist, i

E1 == [v |-> <<1>>, m |-> 2, a |-> 0, i |-> 0]
It == [v |-> <<>>, m |-> 100, a |-> 0, i |-> 1]
Txt(x) == [t |-> "text", x |-> x]
El(tag, c) == [t |-> "el", tag |-> tag, at |-> <<>>, css |-> [k |-> "n"], sus |-> 0, ev |-> <<>>, c |-> c]
Val(a, b) == [t |-> "val", e |-> E1, b |-> <<a, b>>]
List(b) == [t |-> "list", l |-> 1, b |-> b]
Frag(c) == [t |-> "frag", c |-> c]
None1 == [t |-> "none"]
ItTxt == [t |-> "ctext", x |-> "i", e |-> It]

Kinds == <<
    Txt("x"),
    [t |-> "etext", x |-> "e", e |-> E1],
    Val(None1, Txt("v")),
    Val(Txt("w"), El("b", <<>>)),
    Val(Frag(<<Txt("f"), Val(Txt("g"), None1)>>), None1),
    List(<<El("li", <<ItTxt>>)>>),
    List(<<Val(ItTxt, El("i", <<>>))>>),
    List(<<Frag(<<ItTxt, Txt("+")>>), El("li", <<>>)>>),
    Frag(<<Txt("1"), Txt("2")>>),
    Frag(<<List(<<El("u", <<>>)>>), Txt("3")>>),
    El("p", <<Val(Txt("q"), List(<<ItTxt>>))>>),
    Val(List(<<ItTxt>>), List(<<El("s", <<>>)>>)) >>

Wraps == {"el", "frag", "val", "item"}
Wrap(w, c) ==
    CASE w = "el" -> El("div", c)
      [] w = "frag" -> El("div", <<Txt("<"), Frag(c), Txt(">")>>)
      [] w = "val" -> El("div", <<Txt("<"), Val(Frag(c), Txt("off")), Txt(">")>>)
      [] w = "item" -> El("div", <<List(<<Frag(c)>>), Txt(">")>>)

States ==
    IF Walk = "all"
    THEN [k \in 1..10 |-> <<k % 2, <<(<<>>), <<1>>, <<1, 2>>, <<2, 1>>, <<2, 3, 1>> >>[(k + 1) \div 2]>>]
    ELSE << <<0, <<>> >>, <<1, <<1, 2>> >>, <<0, <<2, 1>> >>, <<1, <<2, 3, 1>> >>, <<0, <<1>> >> >>
n == Len(States)
RECURSIVE Path(_, _)
Path(a, b) == IF a = n THEN <<>> ELSE IF b > n THEN <<a + 1>> \o Path(a + 1, a + 2) ELSE <<b, a>> \o Path(a, b + 1)
Way == Path(1, 2)
Env(k) == [v |-> <<States[k][1]>>, l |-> <<States[k][2]>>, s |-> <<>>, o |-> <<>>]

Seqs == UNION {[1..m -> 1..Len(Kinds)] : m \in 1..N}
Init == \E w \in Wraps : \E q \in Seqs :
    /\ tree = Wrap(w, [j \in DOMAIN q |-> Kinds[q[j]]])
    /\ S = Start(tree, Env(1)) /\ hist = <<[op |-> <<"start">>, env |-> Env(1), dom |-> Flatten(S.inst)]>> /\ i = 0
Step ==
    /\ i < Len(Way) /\ i' = i + 1 /\ UNCHANGED tree
    /\ \E ops \in {<<[k |-> "v", j |-> 1, x |-> Env(Way[i + 1]).v[1]], [k |-> "l", j |-> 1, x |-> Env(Way[i + 1]).l[1]]>>} :
       \E T \in {Transact(S, ops)} : S' = T /\ hist' = Append(hist, [op |-> <<"tx", ops>>, dom |-> Flatten(T.inst)])
Emit == i = Len(Way) /\ i' = i + 1 /\ PrintT("@@" \o ToJson([tree |-> tree, hist |-> hist])) /\ UNCHANGED <<tree, S, hist>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_<<tree, S, hist, i>>
View == <<tree, S.env, S.inst, i>>
Good == Denotes(tree, S) /\ Unique(S)
=============================================================================
