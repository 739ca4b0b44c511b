------------------------------- MODULE Fibers -------------------------------
(***************************************************************************)
(* Fiber sets: generation, reproducibility and the well-formedness check.  *)
(***************************************************************************)
EXTENDS Tables

(* Fiber with label i of table T, as a record of numbers.                  *)
Fib(T, i) == [l |-> At(T, "l", i), b |-> At(T, "b", i), h |-> At(T, "h", i),
              x |-> At(T, "x", i), y |-> At(T, "y", i), z |-> At(T, "z", i),
              u |-> At(T, "u", i), v |-> At(T, "v", i), w |-> At(T, "w", i),
              G |-> At(T, "G", i), E |-> At(T, "E", i)]

Norm2(u, v, w) == RSq(u) \oplus RSq(v) \oplus RSq(w)

(*------------------------------------------------------------- well-formed *)
Attributes(T, as) == \A i \in DOMAIN as : HasAttr(T, as[i])

PositiveCol(T, k) == k \in Range(T.cols) => \A i \in DOMAIN T.c[k] : 0 \prec T.c[k][i]
InBoxCol(T, k) ==
  (k \in Range(T.cols) /\ HasAttr(T, "size")) =>
    LET a == Half(T.attrs.size)
    IN  \A i \in DOMAIN T.c[k] : RNeg(a) \preceq T.c[k][i] /\ T.c[k][i] \preceq a
(* Directions: unit up to rounding / clearly not unit / in between.        *)
Unit(T, i)    == LET n == Norm2(T.c["u"][i], T.c["v"][i], T.c["w"][i])
                 IN  RAbs(n \ominus 1) \preceq Q(1, 1000000)
NotUnit(T, i) == LET n == Norm2(T.c["u"][i], T.c["v"][i], T.c["w"][i])
                 IN  ~(RAbs(n \ominus 1) \preceq Q(1, 1000))
HasDir(T) == HasCols(T, << "u", "v", "w" >>)

(* The classes of the defects of a table, one per kind of documented error *)
MatDefects(T) ==
  UNION { Chk("KeyError", HasCols(T, FiberCols)),
          Chk("AttributeError", Attributes(T, << "n", "size" >>)),
          Chk("ValueError", HasAttr(T, "n") => T.len = T.attrs.n),
          Chk("IndexError", Labelled(T)),
          Chk("ValueError", \A k \in {"l", "b", "h", "G", "E"} : PositiveCol(T, k)),
          Chk("ValueError", InBoxCol(T, "x") /\ InBoxCol(T, "y")),
          Chk("ValueError", HasDir(T) => \A i \in 1 .. T.len : ~NotUnit(T, i)) }
MatUnclear(T) == HasDir(T) /\ \E i \in 1 .. T.len : ~Unit(T, i) /\ ~NotUnit(T, i)

SkipCheck(T) == HasAttr(T, "skip_check") /\ T.attrs.skip_check = TRUE

(* The admissible outcomes of checking a table whose defects are D.        *)
Outcomes(D) == IF D = {} THEN {"ok"} ELSE D
MatVerdict(T) ==
  IF SkipCheck(T) THEN {"ok"}
  ELSE Outcomes(MatDefects(T)) \cup (IF MatUnclear(T) THEN {"ok", "ValueError"} ELSE {})
WellFormedMat(T) == "ok" \in MatVerdict(T) /\ ~SkipCheck(T)

(*-------------------------------------------------------------- generation *)
(* p: parameters; cosT, sinT: cosine and sine of half the in-plane range;   *)
(* sinP: sine of half the out-of-plane range (at most a half turn).         *)
Planar2(T, i) == RSq(T.c["u"][i]) \oplus RSq(T.c["v"][i])
AngleWithin(T, i, p) ==
  LET u == T.c["u"][i]  v == T.c["v"][i]  eps == Q(1, 1000000000)
  IN  IF RNeg(eps) \preceq p.cosT
      THEN /\ RNeg(eps) \preceq u
           /\ (RAbs(v) \otimes p.cosT) \preceq ((u \otimes p.sinT) \oplus eps)
      ELSE \/ RNeg(eps) \preceq u
           \/ RSq(u) \preceq ((RSq(p.cosT) \otimes Planar2(T, i)) \oplus eps)
TiltWithin(T, i, p) == RAbs(T.c["w"][i]) \preceq (p.sinP \oplus Q(1, 1000000000))

Count(n, P(_)) == Cardinality({i \in 1 .. n : P(i)})
(* The values fill their range: both ends and each quarter are populated.  *)
Spread(s, half) ==
  LET n == Len(s)
      In(lo, hi) == Count(n, LAMBDA i : (half \otimes lo) \preceq s[i] /\ s[i] \preceq (half \otimes hi))
  IN  /\ In(-1, Q(-9, 10)) >= 1 /\ In(Q(9, 10), 1) >= 1
      /\ \A k \in -2 .. 1 : LET c == In(Q(k, 2), Q(k + 1, 2)) IN n <= 8 * c /\ 5 * c <= 2 * n
(* Same for in-plane angles, with the sines at 1/2 and 9/10 of the range:  *)
(* for a < half a turn, an angle of (-1/2, 1/2] turn is at least a if and  *)
(* only if its sine and its sine from a on are not negative.               *)
SpreadAngles(T, p) ==
  LET n == T.len
      Beyond(i, sgn, c, s) == /\ 0 \preceq (T.c["v"][i] \otimes sgn)
                              /\ (T.c["u"][i] \otimes s) \preceq ((T.c["v"][i] \otimes sgn) \otimes c)
      M(sgn) == Count(n, LAMBDA i : Beyond(i, sgn, p.cos5, p.sin5))
      E(sgn) == Count(n, LAMBDA i : Beyond(i, sgn, p.cos9, p.sin9))
  IN  \A sgn \in {-1, 1} : n <= 8 * M(sgn) /\ 5 * M(sgn) <= 2 * n /\ E(sgn) >= 1

Generated(p, T) ==
  IF ~Shaped(T, FiberCols) THEN {"columns"}
  ELSE UNION {
    Chk("count", T.len = p.n),
    Chk("labels", Labelled(T)),
    Chk("attrs.n", HasAttr(T, "n") /\ T.attrs.n = p.n),
    Chk("attrs.size", HasAttr(T, "size") /\ REq(T.attrs.size, p.size)),
    Chk("length", \A i \in 1 .. T.len : REq(T.c["l"][i], p.length)),
    Chk("width", \A i \in 1 .. T.len : REq(T.c["b"][i], p.width)),
    Chk("thickness", \A i \in 1 .. T.len : REq(T.c["h"][i], p.thickness)),
    Chk("shear", \A i \in 1 .. T.len : REq(T.c["G"][i], p.shear)),
    Chk("tensile", \A i \in 1 .. T.len : REq(T.c["E"][i], p.tensile)),
    Chk("in box", \A k \in {"x", "y", "z"} : InBoxCol(T, k)),
    Chk("sorted heights", NonDecreasing(T.c["z"])),
    Chk("unit directions", \A i \in 1 .. T.len :
          Close(Norm2(T.c["u"][i], T.c["v"][i], T.c["w"][i]), 1, E9)),
    Chk("in-plane angle", \A i \in 1 .. T.len : AngleWithin(T, i, p)),
    Chk("out-of-plane angle", \A i \in 1 .. T.len : TiltWithin(T, i, p)),
    Chk("spread", T.len >= 200 =>
          \A k \in {"x", "y", "z"} : Spread(T.c[k], Half(p.size))),
    Chk("spread of angles", (T.len >= 200 /\ p.fullTurn) => SpreadAngles(T, p)),
    Chk("spread of tilts", (T.len >= 200 /\ 0 \prec p.sinP) => 
          /\ \E i \in 1 .. T.len : (p.sinP \otimes Q(8, 10)) \preceq T.c["w"][i]
          /\ \E i \in 1 .. T.len : T.c["w"][i] \preceq (p.sinP \otimes Q(-8, 10))) }

(*-------------------------------------------- several generations at once *)
SameSeed(p, q) == ~IsNull(p.seed) /\ ~IsNull(q.seed) /\ REq(p.seed, q.seed) /\ p.n = q.n
Related(p, T, q, U) ==
  IF ~(Shaped(T, FiberCols) /\ Shaped(U, FiberCols)) THEN {"columns"}
  ELSE IF SameSeed(p, q)
  THEN UNION {
    Chk("positions scale with size", \A k \in {"x", "y", "z"} :
          IF REq(p.size, q.size) THEN T.c[k] = U.c[k]
          ELSE T.len = U.len /\ \A i \in 1 .. T.len :
                 Close(T.c[k][i] \otimes q.size, U.c[k][i] \otimes p.size, E12)),
    Chk("same angles, same directions",
          (REq(p.theta, q.theta) /\ REq(p.psi, q.psi)) =>
             \A k \in {"u", "v", "w"} : T.c[k] = U.c[k]),
    Chk("tilt independent of in-plane range",
          REq(p.psi, q.psi) => T.c["w"] = U.c["w"]),
    Chk("in-plane angle independent of tilt range",
          (REq(p.theta, q.theta) /\ T.len = U.len) =>
             \A i \in 1 .. T.len : Close(T.c["u"][i] \otimes U.c["v"][i],
                                         T.c["v"][i] \otimes U.c["u"][i], E9)),
    Chk("identical", (p = q) => \A k \in Range(FiberCols) : T.c[k] = U.c[k]) }
  ELSE IF p.n = q.n /\ p.n >= 1 /\ ~IsNull(p.seed) /\ ~IsNull(q.seed) /\ ~REq(p.seed, q.seed)
  THEN Chk("different seeds", \A k \in {"x", "y", "z"} :
             \E i \in 1 .. T.len : ~REq(T.c[k][i] \otimes q.size, U.c[k][i] \otimes p.size))
  ELSE {}
=============================================================================
