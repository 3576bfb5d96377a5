-------------------------------- MODULE Constants --------------------------------
(* Physical constants and unit factors (rsbeams.rsphysics.rsconst).

   A quantity is written as the logarithm of its value, in steps of 1e-7 decades: products and powers become sums and multiples,
   and 31-bit integers hold everything from electron masses to rest energies of protons.
   s: at (kind, unit) and log, the quantity at hand and its value in that unit; <<>> before one is taken.
   The SI values of the fundamental constants are the only numbers prescribed; all others follow.                          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Tol == 30           \* 7e-6 relative: above what revisions of the CODATA values change
Decade == 10000000
\* SI values
C == 84768207
E == -187952896
Me == -300405110
Mp == -267766022
Eps == -110528513
Mu == -59007901
Pi == 4971499
Two == 3010300
\* derived ones: name |-> logarithm
Table == [c |-> C, e |-> E, m_e |-> Me, m_p |-> Mp, epsilon_0 |-> Eps, mu_0 |-> Mu, pi |-> Pi,
          c_SQ |-> 2 * C, c_INV |-> -C, TWO_PI |-> Two + Pi, RT_2 |-> Two \div 2, RT_TWO_PI |-> (Two + Pi) \div 2, RT_2_OVER_PI |-> (Two - Pi) \div 2,
          MKS_factor |-> -(2 * Two + Pi + Eps), c_CGS |-> C + 2 * Decade, m_e_CGS |-> Me + 3 * Decade, m_p_CGS |-> Mp + 3 * Decade,
          C_to_STATC |-> C + Decade, KG_to_EV |-> 2 * C - E, EV_to_ERG |-> E + 7 * Decade,
          e_CGS |-> E + C + Decade, m_e_EV |-> Me + 2 * C - E, m_p_EV |-> Mp + 2 * C - E]
Names == DOMAIN Table
\* the erg is known to four digits only
TolOf(n) == IF n = "EV_to_ERG" THEN 800 ELSE Tol
\* quantities stored in several units, and the factors between units
Stored == {<<"electron", "kg", "m_e">>, <<"electron", "eV", "m_e_EV">>, <<"electron", "g", "m_e_CGS">>, <<"proton", "kg", "m_p">>, <<"proton", "eV", "m_p_EV">>, <<"proton", "g", "m_p_CGS">>,
           <<"charge", "C", "e">>, <<"charge", "statC", "e_CGS">>, <<"light", "m/s", "c">>, <<"light", "cm/s", "c_CGS">>}
Factors == {<<"kg", "eV", "KG_to_EV">>, <<"C", "statC", "C_to_STATC">>, <<"eV", "erg", "EV_to_ERG">>}
Plain == {<<"kg", "g", 3 * Decade>>, <<"m/s", "cm/s", 2 * Decade>>}
Start == [at |-> <<>>, log |-> 0, tol |-> 0]
\* the factor of a step from unit u to unit v, forwards or backwards: how often each factor constant is used
Steps == {[from |-> f[1], to |-> f[2], by |-> f[3], sign |-> 1, plain |-> 0] : f \in Factors} \cup {[from |-> f[2], to |-> f[1], by |-> f[3], sign |-> -1, plain |-> 0] : f \in Factors}
         \cup {[from |-> f[1], to |-> f[2], by |-> "", sign |-> 1, plain |-> f[3]] : f \in Plain} \cup {[from |-> f[2], to |-> f[1], by |-> "", sign |-> -1, plain |-> f[3]] : f \in Plain}
Factor(x) == IF x.by = "" THEN x.sign * x.plain ELSE x.sign * Table[x.by]
TolStep(x) == IF x.by = "" THEN 0 ELSE TolOf(x.by)
\* the quantities of the module named by kind and unit
Of(kind, unit) == {t[3] : t \in {x \in Stored : x[1] = kind /\ x[2] = unit}}
Apply(s, e) == CASE e.op = "take" -> [at |-> <<e.kind, e.unit>>, log |-> Table[e.name], tol |-> TolOf(e.name)]
                 [] e.op = "convert" -> [at |-> <<s.at[1], e.step.to>>, log |-> s.log + Factor(e.step), tol |-> s.tol + TolStep(e.step)]
                 [] OTHER -> s
------------------------------------------------------------------------------
(* "take" name, kind, unit:  obs: log (of the module's constant)
   "convert" step:           obs: log (of the quantity at hand converted with the module's factor)
   "constant" name:          obs: log                                                            *)
ConstantsInit(t) == Start
ConstantsStep(s, e) == Apply(s, e)
ConstantsVerdict(s, e) ==
    LET w == Apply(s, e) IN
    CASE e.status # "ok" -> "missing"
      [] e.op = "constant" -> IF Abs(e.log - Table[e.name]) <= TolOf(e.name) THEN "ok" ELSE "value-" \o e.name
      [] Abs(e.log - w.log) > w.tol -> e.op
      [] OTHER -> "ok"
================================================================================
