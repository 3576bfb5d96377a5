-------------------------------- MODULE Symbol --------------------------------
(* SDDS symbol markup as a plot label (rsbeams.rsplot.util.format_symbol).

   Input: a sequence of tokens, the codes "$a" "$b" "$n" "$g" "$s" "$r" "$e" and single
   characters.  Output: the tokens of the label (TeX commands and single characters)
   without the blanks that end a command.
   font: "roman", "greek", "special"; open: number of scripts not yet closed            *)
EXTENDS Integers, Sequences

Codes == {"$a", "$b", "$n", "$g", "$s", "$r", "$e"}
Greek == [a |-> "\\alpha", b |-> "\\beta", g |-> "\\gamma", d |-> "\\delta", e |-> "\\varepsilon", z |-> "\\zeta", c |-> "\\eta",
          G |-> "\\Gamma", D |-> "\\Delta", Q |-> "\\Theta", q |-> "\\theta", i |-> "\\iota", k |-> "\\kappa", l |-> "\\lambda",
          m |-> "\\mu", n |-> "\\nu", x |-> "\\xi", L |-> "\\Lambda", X |-> "\\Xi", P |-> "\\Pi", p |-> "\\pi", r |-> "\\rho",
          s |-> "\\sigma", t |-> "\\tau", S |-> "\\Sigma", U |-> "\\Upsilon", F |-> "\\Phi", u |-> "\\upsilon", f |-> "\\phi",
          v |-> "\\chi", y |-> "\\psi", w |-> "\\omega", Y |-> "\\Psi", W |-> "\\Omega"]
Special == [a |-> "\\pm"]
Font(f, c) == CASE f = "greek" /\ c \in DOMAIN Greek -> Greek[c]
                [] f = "special" /\ c \in DOMAIN Special -> Special[c]
                [] OTHER -> c
Commands == {Greek[c] : c \in DOMAIN Greek} \cup {Special[c] : c \in DOMAIN Special}
Start == [font |-> "roman", open |-> 0, out |-> <<>>]
Put(s, c) == IF c = " " /\ s.out # <<>> /\ s.out[Len(s.out)] \in Commands THEN s ELSE [s EXCEPT !.out = Append(@, c)]
Take(s, t) ==
    CASE t = "$a" -> [s EXCEPT !.out = @ \o <<"^", "{">>, !.open = @ + 1]
      [] t = "$b" -> [s EXCEPT !.out = @ \o <<"_", "{">>, !.open = @ + 1]
      [] t = "$n" -> IF s.open = 0 THEN s ELSE [s EXCEPT !.out = Append(@, "}"), !.open = @ - 1]
      [] t = "$g" -> [s EXCEPT !.font = "greek"]
      [] t = "$s" -> [s EXCEPT !.font = "special"]
      [] t \in {"$r", "$e"} -> [s EXCEPT !.font = "roman"]
      [] OTHER -> Put(s, Font(s.font, t))
RECURSIVE Read(_, _)
Read(s, ts) == IF ts = <<>> THEN s ELSE Read(Take(s, Head(ts)), Tail(ts))
RECURSIVE Close(_, _)
Close(out, n) == IF n = 0 THEN out ELSE Close(Append(out, "}"), n - 1)
Label(ts) == LET s == Read(Start, ts) IN Close(s.out, s.open)
RECURSIVE Depth(_, _)
Depth(out, n) == IF n < 0 \/ out = <<>> THEN n ELSE Depth(Tail(out), CASE Head(out) = "{" -> n + 1 [] Head(out) = "}" -> n - 1 [] OTHER -> n)
Balanced(out) == Depth(out, 0) = 0
------------------------------------------------------------------------------
\* e: op "label" ts; math (TRUE: delimiters asked for); obs: status, out (tokens of the label), dollars (delimiters found)
SymbolInit(t) == [calls |-> 0]
SymbolStep(s, e) == [calls |-> s.calls + 1]
SymbolVerdict(s, e) ==
    CASE e.status # "ok" -> "refused"
      [] e.dollars # (IF e.math THEN 2 ELSE 0) -> "delimiters"
      [] ~Balanced(e.out) -> "unbalanced"
      [] e.out # Label(e.ts) -> "label"
      [] OTHER -> "ok"
===============================================================================
