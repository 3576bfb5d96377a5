--------------------------------- MODULE Lte ---------------------------------
(* elegant lattice (.lte) files (rsbeams.rslattice.lte_parser.BeamlineParser).

   A lattice is [vars, elems, lines]:
     vars[i]   the RPN expression stored in variable i; it may use variables 1..i-1
     elems[e]  [name, type, pars] with pars a sequence of [k, v], v a value source:
               [t |-> "num", x |-> <<n, d>>] | [t |-> "str", x |-> <<i, 0>>] | [t |-> "rpn", x |-> expression]
     lines[l]  [name, body], a body being a sequence of items [c, k, i, g]:
               coefficient c (0: none written, -1: 0), k = "e" element i, "l" line i, "g" the parenthesised body g
   An expression is a sequence of tokens [t, n, d]: "n" number n/d, "v" variable n, "pi",
   and the operators "+", "-", "*", "mult", "/", "sqrt".
   A number is <<n, d, p>>, the value n/d * pi^p.                                *)
EXTENDS Rat, Integers, Sequences, FiniteSets

Times(c) == CASE c = 0 -> 1 [] c = -1 -> 0 [] OTHER -> c
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
RECURSIVE Expand(_, _)
Expand(lat, body) ==
    IF body = <<>> THEN <<>>
    ELSE LET it == Head(body)
             one == CASE it.k = "e" -> <<it.i>>
                      [] it.k = "l" -> Expand(lat, lat.lines[it.i].body)
                      [] OTHER -> Expand(lat, it.g)
         IN  Repeat(one, Times(it.c)) \o Expand(lat, Tail(body))

\* ------------------------------------------------------------- reverse Polish
Ops2 == {"+", "-", "*", "mult", "/"}
Num(r, p) == <<r[1], r[2], IF r[1] = 0 THEN 0 ELSE p>>
Rt(v) == <<v[1], v[2]>>
Bin(o, a, b) ==          \* a below b on the stack
    CASE o = "+" -> Num(RAdd(Rt(a), Rt(b)), IF a[1] = 0 THEN b[3] ELSE a[3])
      [] o = "-" -> Num(RSub(Rt(a), Rt(b)), IF a[1] = 0 THEN b[3] ELSE a[3])
      [] o \in {"*", "mult"} -> Num(RMul(Rt(a), Rt(b)), a[3] + b[3])
      [] o = "/" -> Num(RDiv(Rt(a), Rt(b)), a[3] - b[3])
BinOk(o, a, b) == CASE o \in {"+", "-"} -> a[3] = b[3] \/ a[1] = 0 \/ b[1] = 0
                    [] o = "/" -> b[1] # 0 /\ a[3] - b[3] \in 0..2
                    [] OTHER -> a[3] + b[3] \in 0..2
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k >= n THEN k ELSE ISqrt(n, k + 1)
IsSq(n) == n >= 0 /\ n < 10000 /\ ISqrt(n, 0) * ISqrt(n, 0) = n
SqrtOk(a) == a[3] \in {0, 2} /\ IsSq(a[1]) /\ IsSq(a[2])
Sqrt(a) == Num(<<ISqrt(a[1], 0), ISqrt(a[2], 0)>>, a[3] \div 2)

\* run an expression on a stack; the result <<>> means that it is outside the domain
RECURSIVE RunRpn(_, _, _)
RunRpn(ex, st, env) ==
    IF ex = <<>> THEN <<st>>
    ELSE LET k == Head(ex)
             n == Len(st)
         IN  CASE k.t = "n" -> RunRpn(Tail(ex), Append(st, Num(R(k.n, k.d), 0)), env)
               [] k.t = "v" -> RunRpn(Tail(ex), Append(st, env[k.n]), env)
               [] k.t = "pi" -> RunRpn(Tail(ex), Append(st, <<1, 1, 1>>), env)
               [] k.t = "sqrt" -> IF n >= 1 /\ SqrtOk(st[n])
                                  THEN RunRpn(Tail(ex), Append(SubSeq(st, 1, n - 1), Sqrt(st[n])), env) ELSE <<>>
               [] OTHER -> IF n >= 2 /\ BinOk(k.t, st[n - 1], st[n])
                           THEN RunRpn(Tail(ex), Append(SubSeq(st, 1, n - 2), Bin(k.t, st[n - 1], st[n])), env) ELSE <<>>
Eval(ex, env) == LET r == RunRpn(ex, <<>>, env) IN r[1][Len(r[1])]
RECURSIVE EnvUpTo(_, _)
EnvUpTo(lat, n) == IF n = 0 THEN <<>>
                   ELSE LET e == EnvUpTo(lat, n - 1) IN Append(e, Eval(lat.vars[n], e))
Env(lat) == EnvUpTo(lat, Len(lat.vars))

\* the value of a parameter: <<"n", n, d, p>> or <<"s", i, 0, 0>>
Value(v, env) == CASE v.t = "num" -> LET r == R(v.x[1], v.x[2]) IN <<"n", r[1], r[2], 0>>
                   [] v.t = "str" -> <<"s", v.x[1], 0, 0>>
                   [] OTHER -> LET r == Eval(v.x, env) IN <<"n", r[1], r[2], r[3]>>

------------------------------------------------------------------------------
(* conformance: one event per parsed line; obs is the sequence of elements of
   the beamline, each [name, type, pars], pars a sequence of [k, s, r]: s = 0 for
   numbers, else the string's number; r = the number divided by pi^0, pi^1, pi^2 *)
SameValue(o, w) == IF w[1] = "s" THEN o.s = w[2]
                   ELSE o.s = 0 /\ RSame(o.r[w[4] + 1], <<w[2], w[3]>>)
ParClause(o, e, env) ==
    CASE Len(o.pars) # Len(e.pars) -> "parameter-set"
      [] \E i \in 1..Len(e.pars) : ~\E j \in 1..Len(o.pars) : o.pars[j].k = e.pars[i].k -> "parameter-name"
      [] \E i \in 1..Len(e.pars) : \E j \in 1..Len(o.pars) :
            o.pars[j].k = e.pars[i].k /\ ~SameValue(o.pars[j], Value(e.pars[i].v, env)) -> "parameter-value"
      [] OTHER -> "ok"
LteInit(t) == [lat |-> t.lat, env |-> Env(t.lat)]
LteStep(s, e) == s
LteVerdict(s, e) ==
    LET lat == s.lat
        want == Expand(lat, lat.lines[e.line].body)
        n == Len(want)
    IN  CASE e.status # "ok" -> "parse-" \o e.status
          [] Len(e.obs) # n -> "sequence-length"
          [] \E k \in 1..n : e.obs[k].name # lat.elems[want[k]].name -> "sequence"
          [] \E k \in 1..n : e.obs[k].type # lat.elems[want[k]].type -> "element-type"
          [] \E k \in 1..n : ParClause(e.obs[k], lat.elems[want[k]], s.env) # "ok" ->
                LET k == CHOOSE x \in 1..n : ParClause(e.obs[x], lat.elems[want[x]], s.env) # "ok"
                IN  ParClause(e.obs[k], lat.elems[want[k]], s.env)
          [] OTHER -> "ok"
=============================================================================
