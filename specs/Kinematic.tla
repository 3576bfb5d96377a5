------------------------------ MODULE Kinematic ------------------------------
(* The relativistic converter (rsbeams.rsstats.kinematic) as a set of converter
   objects, each created with a configuration and then called any number of times.

   Kinematics are exact: a configuration carries a Pythagorean triple
   a^2 + b^2 = c^2 standing for  p c : m c^2 : E = a : b : c,  and a mass mn/md in
   units of a reference mass.  Every quantity is then a rational:
       beta = a/c   gamma = c/b   beta*gamma = a/b
       p = (a/b) m   E = (c/b) m   KE = ((c-b)/b) m   Brho = p / e
   The physical unit is a tag ("eV" or "SI"); dimensionless numbers, velocity
   (in c) and Brho (in reference mass / c) carry the tag "abs".              *)
EXTENDS Integers, Sequences, Rat

Quantities == <<"momentum", "velocity", "energy", "kenergy",
                "betagamma", "brho", "beta", "gamma">>
QSet == {Quantities[i] : i \in 1..8}
Dimensional == {"momentum", "energy", "kenergy"}
Units == {"eV", "SI"}

Mass(cfg) == R(cfg.mn, cfg.md)

\* the exact value of quantity q for configuration cfg (reference units)
Value(cfg, q) ==
    CASE q = "momentum"  -> RMul(R(cfg.a, cfg.b), Mass(cfg))
      [] q = "brho"      -> RMul(R(cfg.a, cfg.b), Mass(cfg))
      [] q = "energy"    -> RMul(R(cfg.c, cfg.b), Mass(cfg))
      [] q = "kenergy"   -> RMul(R(cfg.c - cfg.b, cfg.b), Mass(cfg))
      [] q = "velocity"  -> R(cfg.a, cfg.c)
      [] q = "beta"      -> R(cfg.a, cfg.c)
      [] q = "gamma"     -> R(cfg.c, cfg.b)
      [] q = "betagamma" -> R(cfg.a, cfg.b)

UnitOf(q, u) == IF q \in Dimensional THEN u ELSE "abs"

\* what a call must return, quantity by quantity: <<unit tag, num, den>>
Tagged(cfg, q, u) == LET v == Value(cfg, q) IN <<UnitOf(q, u), v[1], v[2]>>

------------------------------------------------------------------------------
(* design-level consistency of the value table itself *)
Sq(x) == RMul(x, x)
Consistent(cfg) ==
    LET m == Mass(cfg) p == Value(cfg, "momentum") en == Value(cfg, "energy")
    IN  /\ cfg.a * cfg.a + cfg.b * cfg.b = cfg.c * cfg.c
        /\ RDiv(en, m) = Value(cfg, "gamma")
        /\ RDiv(p, en) = Value(cfg, "beta")
        /\ RSub(en, m) = Value(cfg, "kenergy")
        /\ RMul(Value(cfg, "beta"), Value(cfg, "gamma")) = Value(cfg, "betagamma")
        /\ Value(cfg, "brho") = p
        /\ RSub(Sq(Value(cfg, "gamma")), Sq(Value(cfg, "betagamma"))) = ROne

------------------------------------------------------------------------------
(* trace interface: state = converter id -> configuration *)
Ids == 1..4
NoCfg == [a |-> 0, b |-> 0, c |-> 0, mn |-> 0, md |-> 1, q |-> "none",
          iu |-> "none", mu |-> "none", ou |-> "none"]
Tri(cfg) == [a |-> cfg.a, b |-> cfg.b, c |-> cfg.c, mn |-> cfg.mn, md |-> cfg.md,
             q |-> cfg.q, iu |-> cfg.iu, mu |-> cfg.mu, ou |-> cfg.ou]

KinematicInit(t) == [o \in Ids |-> NoCfg]

KinematicStep(st, e) == IF e.op = "create" THEN [st EXCEPT ![e.o] = Tri(e.cfg)] ELSE st

BadQuantities(cfg, obs) ==
    {q \in QSet : obs[q] # Tagged(cfg, q, cfg.ou)}

KinematicVerdict(st, e) ==
    IF e.op = "create"
    THEN IF e.status # "ok" THEN "create-refused"
         ELSE IF ~Consistent(e.cfg) THEN "driver-bad-triple" ELSE "ok"
    ELSE IF e.op = "closure"
    THEN IF e.agree # "yes" THEN "closure-" \o e.agree ELSE "ok"
    ELSE LET cfg == st[e.o] IN
      CASE e.status # "ok" -> "call-failed-" \o e.status
        [] BadQuantities(cfg, e.obs) # {} ->
              "wrong-" \o (CHOOSE q \in BadQuantities(cfg, e.obs) : TRUE)
        [] e.p_unit # cfg.ou -> "momentum-label"
        [] e.e_unit # cfg.ou -> "energy-label"
        [] e.mass_label \notin {cfg.mu, cfg.ou} -> "mass-label"
        [] e.mass # <<e.mass_label, Mass(cfg)[1], Mass(cfg)[2]>> -> "mass-not-in-labelled-unit"
        [] e.input_type # cfg.q -> "input-type"
        [] e.input_label # UnitOf(cfg.q, cfg.iu) -> "input-label"
        [] e.input # Tagged(cfg, cfg.q, cfg.iu) -> "input-not-in-labelled-unit"
        [] OTHER -> "ok"
=============================================================================
