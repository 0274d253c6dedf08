-------------------------------- MODULE Rand --------------------------------
(* Deterministic pseudo-random choices for scenario generation: a pure        *)
(* function of (seed, walk, step, draw), so that TLC's workers may run in     *)
(* parallel and a run repeats exactly.                                        *)
EXTENDS Integers, Sequences, IOUtils
LOCAL P == 46337                          \* prime, squares fit in 31 bits
LOCAL Rd(h, v) == LET g == (h * 211 + (v % P) * 97 + 12345) % P
                      q == (g * g) % P
                  IN (q * 389 + g * 17 + 7) % P
Seed == atoi(IOEnv.SEED)
RawR(w, s, d) == Rd(Rd(Rd(Rd((Seed % P) + 1, w), (w \div P) + 3), s * 131 + 5), d * 1009 + 11)
\* uniform (to within 2 percent for the ranges used) in 0..n-1
RN(w, s, d, n) == (RawR(w, s, d) \div 3) % n
\* in a..b
RI(w, s, d, a, b) == a + RN(w, s, d, b - a + 1)
\* element of a sequence
RS(w, s, d, seq) == seq[1 + RN(w, s, d, Len(seq))]
=============================================================================
