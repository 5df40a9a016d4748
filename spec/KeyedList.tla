----------------------------- MODULE KeyedList -----------------------------
(* A keyed list on the page: which node shows which item after the list has   *)
(* changed.  nodes: the items' nodes in document order, [k |-> key, n |-> the *)
(* node, p |-> payload it was rendered with].                                 *)
(* Enumerated exhaustively: all pairs (old list, new list).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys,     \* number of keys
          Len1,     \* longest list
          Dups,     \* how often a key may occur
          Perm      \* 0, or: start from <<1..Perm>> only and take new lists without duplicates over 1..Perm+1

VARIABLES nodes, fresh, stage, old, rendered

Seqs(n) == UNION {[1..m -> 1..Keys] : m \in 0..n}
Count(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
Lists == {s \in Seqs(Len1) : \A k \in 1..Keys : Count(s, k) <= Dups}
Perms == UNION {{s \in [1..m -> 1..(Perm + 1)] : \A i, j \in 1..m : s[i] = s[j] => i = j} : m \in (Perm - 1)..Perm}

occ(s, i) == Cardinality({j \in 1..i : s[j] = s[i]})
KeysOf(ns) == [i \in DOMAIN ns |-> ns[i].k]
\* a node is kept for the same occurrence of its key; new occurrences are rendered
Take(ns, new, f) ==
    [i \in DOMAIN new |->
        LET o == {j \in DOMAIN ns : ns[j].k = new[i] /\ occ(KeysOf(ns), j) = occ(new, i)} IN
        IF o # {} THEN ns[CHOOSE j \in o : TRUE] ELSE [k |-> new[i], n |-> f + i]]

Init == nodes = <<>> /\ fresh = 0 /\ stage = 0 /\ old = <<>> /\ rendered = <<>>
Set(new) ==
    /\ nodes' = Take(nodes, new, fresh)
    /\ fresh' = fresh + Len(new)
    /\ rendered' = SelectSeq(new, LAMBDA x : FALSE) \o
         [i \in 1..Len(SelectSeq([q \in DOMAIN new |-> q], LAMBDA q : Take(nodes, new, fresh)[q].n > fresh)) |->
             new[SelectSeq([q \in DOMAIN new |-> q], LAMBDA q : Take(nodes, new, fresh)[q].n > fresh)[i]]]
    /\ old' = KeysOf(nodes)
First == stage = 0 /\ stage' = 1 /\ \E l \in (IF Perm > 0 THEN {[i \in 1..Perm |-> i]} ELSE Lists) : Set(l)
Second == stage = 1 /\ stage' = 2 /\ \E l \in (IF Perm > 0 THEN Perms ELSE Lists) : Set(l)
\* what must be observable: keys in order; per position the node it had before (0: new) where that is determined;
\* the keys rendered, as a multiset
Uniq(k) == Count(old, k) <= 1 /\ Count(KeysOf(nodes), k) <= 1
Emit == stage = 2 /\ stage' = 3 /\ UNCHANGED <<nodes, fresh, old, rendered>>
        /\ PrintT("@@" \o ToJson([old |-> old, new |-> KeysOf(nodes), rendered |-> rendered,
              from |-> [i \in DOMAIN nodes |-> IF ~Uniq(nodes[i].k) THEN -1 ELSE IF nodes[i].n <= Len(old) THEN nodes[i].n ELSE 0]]))
Next == First \/ Second \/ Emit
Spec == Init /\ [][Next]_<<nodes, fresh, stage, old, rendered>>

\* no node twice; exactly the missing occurrences are rendered; every key which stays keeps its nodes
Distinct == \A i, j \in DOMAIN nodes : nodes[i].n = nodes[j].n => i = j
Minimal == \A k \in 1..Keys : LET a == Count(old, k) b == Count(KeysOf(nodes), k) IN
              stage = 2 => Count(rendered, k) = (IF b > a THEN b - a ELSE 0)
Kept == stage = 2 => \A i \in DOMAIN old : Count(KeysOf(nodes), old[i]) >= Count(old, old[i]) => \E j \in DOMAIN nodes : nodes[j].n = i
=============================================================================
