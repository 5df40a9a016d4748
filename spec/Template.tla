----------------------------- MODULE Template -----------------------------
(* What is written in a template and what it means.  The meaning of a       *)
(* template is a component tree of Page.tla; the ways of writing things     *)
(* (fields f: a number choosing one of the notations there are for it, and  *)
(* components with arguments) do not show in the meaning.                   *)
EXTENDS Naturals, Sequences

\* a component is used with arguments; its body mentions them by number
\*   text argument        [t |-> "arg", j]             instead of a text
\*   computed argument    [t |-> "carg", x, j]         instead of a computed text with the prefix x
\*   attribute argument   [n, k |-> "arg", j]          instead of a fixed attribute value
RECURSIVE Mean(_, _)
MeanAttr(a, args) == IF a.k = "arg" THEN [n |-> a.n, k |-> "s", x |-> args[a.j].x]
                     ELSE IF a.k = "s" THEN [n |-> a.n, k |-> "s", x |-> a.x]
                     ELSE IF a.k \in {"c", "o"} THEN [n |-> a.n, k |-> a.k, x |-> a.x, e |-> a.e]
                     ELSE [n |-> a.n, k |-> a.k, j |-> a.j]
MeanEv(h) == [e |-> h.e, h |-> h.h, k |-> h.k, x |-> h.x, ops |-> h.ops, r |-> h.r]
MeanAll(c, args) == [i \in DOMAIN c |-> Mean(c[i], args)]
Mean(t, args) ==
    CASE t.t = "comp" -> Mean(t.body, t.args)
      [] t.t = "arg" -> [t |-> "text", x |-> args[t.j].x]
      [] t.t = "carg" -> [t |-> "etext", x |-> t.x, e |-> args[t.j].e]
      [] t.t = "el" -> [t |-> "el", tag |-> t.tag, at |-> [i \in DOMAIN t.at |-> MeanAttr(t.at[i], args)], css |-> t.css, sus |-> t.sus,
                        ev |-> [i \in DOMAIN t.ev |-> MeanEv(t.ev[i])], c |-> MeanAll(t.c, args)]
      [] t.t = "text" -> [t |-> "text", x |-> t.x]
      [] t.t \in {"ctext", "etext"} -> [t |-> t.t, x |-> t.x, e |-> t.e]
      [] t.t = "stext" -> [t |-> "stext", j |-> t.j]
      [] t.t = "val" -> [t |-> "val", e |-> t.e, b |-> MeanAll(t.b, args)]
      [] t.t = "list" -> [t |-> "list", l |-> t.l, b |-> MeanAll(t.b, args)]
      [] t.t = "frag" -> [t |-> "frag", c |-> MeanAll(t.c, args)]
      [] OTHER -> [t |-> t.t]
=============================================================================
