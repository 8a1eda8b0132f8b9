-------------------------------- MODULE SmPar -------------------------------
(* Standard Model parameters and the Lagrangian with dimension-six terms.    *)
(*                                                                           *)
(* Higgs potential, with x = v^2, L = Lambda, m = 4 m2, c = 3 Cphi and the   *)
(* kinetic term of the physical Higgs (1 - k x / D):                         *)
(*    -8 V(x) = m x - L x^2 + c x^3 / 3                                      *)
(* all integers in suitable units.  A vacuum is a local minimum at x > 0     *)
(* with a positive kinetic term.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS X, R, D          \* vacua 1..X, parameters -R..R, denominator of k
VARIABLE st
Abs(a) == IF a < 0 THEN -a ELSE a
Slope(m, l, c, x) == m - 2 * l * x + c * x * x      \* -8 V'(x)
Curv(l, c, x) == l - c * x                          \* 4 V''(x)
Kin(k, x) == D - k * x                              \* times D
Vacuum(m, l, c, k, x) == x > 0 /\ Slope(m, l, c, x) = 0 /\ Curv(l, c, x) > 0 /\ Kin(k, x) > 0

(* the inverse relation: the potential with a given vacuum and curvature     *)
Init == \E x \in 1..X, c \in -R..R, s \in 1..R, k \in -R..R :
          /\ Kin(k, x) > 0
          /\ st = [kind |-> "vacuum", x |-> x, c |-> c, l |-> s + c * x, m |-> 2 * (s + c * x) * x - c * x * x,
                   k |-> k, s |-> s, kin |-> Kin(k, x)]
(* mass^2 = x s / (1 - k x / D) *)
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
IsVacuum == Vacuum(st.m, st.l, st.c, st.k, st.x)
(* there is no other vacuum, so that both directions are inverse to each     *)
(* other: the other stationary point is a maximum                            *)
Unique == /\ \A y \in 1..(4 * X) : Slope(st.m, st.l, st.c, y) = 0 /\ y # st.x => Curv(st.l, st.c, y) <= 0
          /\ st.l * st.l - st.c * st.m = st.s * st.s

(* existence over the reals, with any positive kinetic term *)
Disc(m, l, c) == l * l - c * m
Exists_(m, l, c) == IF c = 0 THEN l > 0 /\ m > 0
                    ELSE /\ Disc(m, l, c) > 0
                         /\ IF c > 0 THEN l > 0 /\ m > 0 ELSE l < 0 \/ m > 0
Grid == [m : -R..R, l : -R..R, c : -R..R]
(* agrees with the integer vacua *)
ASSUME \A g \in Grid : (\E x \in 1..X : Slope(g.m, g.l, g.c, x) = 0 /\ Curv(g.l, g.c, x) > 0) => Exists_(g.m, g.l, g.c)
(* and with the change of sign of the slope on an integer grid scaled by 2:  *)
(* -8 V' changes from positive to negative with growing x at a minimum       *)
ASSUME \A g \in Grid : (\E x \in 0..(4 * X) : Slope(g.m, g.l, g.c, x) > 0 /\ Slope(g.m, g.l, g.c, x + 1) < 0) => Exists_(g.m, g.l, g.c)
NoVacuum == { g \in Grid : ~Exists_(g.m, g.l, g.c) }
Vacua == { g \in Grid : Exists_(g.m, g.l, g.c) }

(* What depends on what.                                                     *)
Ops == {"phi", "phiBox", "phiD", "phiG", "phiW", "phiB", "phiWB", "uphi", "dphi", "ephi"}
Lagrangian == [ m2 |-> {"phi", "phiBox", "phiD"}, Lambda |-> {"phi", "phiBox", "phiD"},
                g |-> {"phiW"}, gp |-> {"phiB", "phiWB"}, gs |-> {"phiG"},
                Gu |-> {"uphi"}, Gd |-> {"dphi"}, Ge |-> {"ephi"} ]
Vac == {"m2", "Lambda", "phi"}
Quark == Vac \cup {"Gu", "uphi"}
QuarkD == Vac \cup {"Gd", "dphi"}
Lept == Vac \cup {"Ge", "ephi"}
EW == Vac \cup {"g", "gp", "phiW", "phiB", "phiWB"}
Physical == [ GF |-> Vac, alpha_s |-> Vac \cup {"gs", "phiG"}, alpha_e |-> EW, m_W |-> Vac \cup {"g", "phiW"},
              m_Z |-> EW \cup {"phiD"}, m_h |-> Vac \cup {"phiBox", "phiD"},
              m_u |-> Quark, m_c |-> Quark, m_t |-> Quark, m_d |-> QuarkD, m_s |-> QuarkD, m_b |-> QuarkD,
              Vus |-> Quark \cup QuarkD, Vub |-> Quark \cup QuarkD, Vcb |-> Quark \cup QuarkD, gamma |-> Quark \cup QuarkD,
              m_e |-> Lept, m_mu |-> Lept, m_tau |-> Lept ]
(* physical parameters used as input, one for each Lagrangian parameter:     *)
(* the vacuum is fixed by GF, so whatever is reproduced does not depend, in  *)
(* total, on any coefficient                                                 *)
Inputs == DOMAIN Physical \ {"m_Z"}
ASSUME \A q \in DOMAIN Physical : Physical[q] \subseteq (DOMAIN Lagrangian \cup Ops)
ASSUME \A q \in Inputs : \A o \in Physical[q] \cap Ops : \E l \in Physical[q] \cap DOMAIN Lagrangian : o \in Lagrangian[l]
Out == TLCGet("distinct") > 0 /\
       JsonSerialize(IOEnv.OUT, [none |-> NoVacuum, some |-> Vacua, lagrangian |-> Lagrangian, physical |-> Physical,
                                 inputs |-> Inputs, ops |-> Ops])
Emit == PrintT("BEH" \o ToJson(st))
=============================================================================
