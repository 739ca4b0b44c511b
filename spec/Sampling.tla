------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Histories as functions of a pseudo-time between 0 and 1.                *)
(*                                                                         *)
(* A history is a sequence Y of samples; a sample is a sequence of numbers *)
(* (its components).  Sample k of N is taken at time (k - 1) / (N - 1).    *)
(***************************************************************************)
EXTENDS Packing

Near == E12      \* of a sample time, in steps

(* Where time t falls among N samples: the sample before it, and how far   *)
(* behind that sample (in steps).  Times after 1 belong to the last one.   *)
Place(N, t) ==
  IF N = 1 \/ 1 \preceq t THEN [k |-> N, frac |-> RInt(0)]
  ELSE LET a == t \otimes (N - 1)
       IN  [k |-> RFloor(a) + 1, frac |-> a \ominus RFloor(a)]

Lerp(a, b, r) == IF REq(r, 0) \/ REq(a, b) THEN a
                 ELSE IF REq(r, 1) THEN b
                 ELSE (a \otimes RSub(1, r)) \oplus (b \otimes r)
Linear(Y, t) ==
  LET p == Place(Len(Y), t)
  IN  IF REq(p.frac, 0) THEN Y[p.k]
      ELSE TLCEval([c \in DOMAIN Y[p.k] |-> Lerp(Y[p.k][c], Y[p.k + 1][c], p.frac)])

(* The samples that kind "previous" may take at time t: the one before it, *)
(* and also the next or previous one if t is a sample time up to rounding. *)
Previous(Y, t) ==
  LET p == Place(Len(Y), t)
      n == Len(Y)
  IN  {Y[p.k]} \cup
      (IF RLt(RSub(1, p.frac), Near) /\ p.k < n THEN {Y[p.k + 1]} ELSE {}) \cup
      (IF RLt(p.frac, Near) /\ p.k > 1 THEN {Y[p.k - 1]} ELSE {})

TimeOf(k, n) == IF n = 1 THEN RInt(0) ELSE RDiv(k - 1, n - 1)
Resampled(Y, size) ==
  IF IsNull(size) THEN Y
  ELSE TLCEval([k \in 1 .. size |-> Linear(Y, TimeOf(k, size))])

(* Truncation towards zero of a value known up to rounding.                *)
Trunc(x) == IF x \prec 0 THEN -RFloor(RNeg(x)) ELSE RFloor(x)
Truncations(x) == {Trunc(x), Trunc(x \oplus E9), Trunc(x \ominus E9)}
SameComponent(v, x, dtype) ==
  CASE dtype = "int"  -> \E t \in Truncations(x) : REq(v, t)
    [] dtype = "bool" -> REq(v, IF REq(x, 0) THEN 0 ELSE 1)
    [] OTHER          -> Close(v, x, E9)
SameSample(v, x, dtype) ==
  Len(v) = Len(x) /\ \A c \in DOMAIN x : SameComponent(v[c], x[c], dtype)

(* C29.  e: kind, size, y (samples), dtype, ask (times) with answers got,  *)
(* at: answers at the sample times asked one by one, own: answers without  *)
(* time, shape of a sample and of an answer.                               *)
Interpolation(e) ==
  LET N == Len(e.y)
      R == TLCEval(IF e.kind = "previous" THEN e.y ELSE Resampled(e.y, e.size))
      m == IF IsNull(e.size) THEN N ELSE e.size
      AtTime(v, t) ==
        IF e.kind = "previous"
        THEN IF IsNull(e.size) THEN \E x \in Previous(e.y, t) : SameSample(v, x, e.dtype)
             ELSE \* previous sample of the previous resampled time
                  \E s \in {TimeOf(k, m) : k \in {k \in 1 .. m :
                              LET d == (t \otimes (m - 1)) \ominus (k - 1)
                              IN  RNeg(Near) \preceq d /\ d \preceq (1 \oplus Near)}}
                           \cup (IF 1 \preceq t THEN {RInt(1)} ELSE {}) :
                     \E x \in Previous(e.y, s) : SameSample(v, x, e.dtype)
        ELSE SameSample(v, Linear(R, t), e.dtype)
  IN  UNION {
    Chk("data type", e.dtypeOut = e.dtype),
    Chk("shape of a sample", e.shapeOut = e.shape),
    Chk("sample times", IsNull(e.size) =>
          Len(e.at) = N /\ \A k \in 1 .. N : SameSample(e.at[k], e.y[k], e.dtype)),
    Chk("own times", Len(e.own) = m /\
          \A k \in 1 .. m : IF IsNull(e.size) THEN SameSample(e.own[k], e.y[k], e.dtype)
                            ELSE IF m = 1 THEN SameSample(e.own[1], e.y[1], e.dtype)
                            ELSE AtTime(e.own[k], TimeOf(k, m))),
    Chk("between samples", m > 1 =>
          \A j \in DOMAIN e.ask : AtTime(e.got[j], e.ask[j])),
    Chk("single sample", N = 1 =>
          \A j \in DOMAIN e.ask : SameSample(e.got[j], e.y[1], e.dtype)) }

(* C28.  r: the results of a run at the N sample times (r.steps), the      *)
(* values first and last, and, if resampled, values at size times.         *)
Column(steps, v) == TLCEval([k \in DOMAIN steps |-> IF v = "Z" THEN << steps[k].Z >> ELSE steps[k][v]])
History(T, M, y, r, o) ==
  LET steps == r.steps  n == Len(steps)  H0 == TLCEval(Bounds0(T, M)) IN
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE UNION {
    Chk("initial state", AllZero(steps[1].u) /\ AllZero(steps[1].f)
          /\ \A q \in 1 .. y.m : Close(steps[1].H[q], H0[q], E9)),
    Chk("initial ceiling", Close(steps[1].Z, IF M.len = 0 THEN RInt(0) ELSE Top(T, M), E9)
                           /\ REq(steps[1].rl, 1)),
    Chk("value at time 0", r.first = [u |-> steps[1].u, f |-> steps[1].f, F |-> steps[1].F,
                                      H |-> steps[1].H, Z |-> steps[1].Z, rl |-> steps[1].rl]),
    Chk("value at time 1", r.last = [u |-> steps[n].u, f |-> steps[n].f, F |-> steps[n].F,
                                     H |-> steps[n].H, Z |-> steps[n].Z, rl |-> steps[n].rl]),
    Chk("same step: bounds and ceiling", \A k \in 1 .. n : \A q \in 1 .. y.m :
          Close(steps[k].H[q], IF q % 3 = 0 THEN (H0[q] \oplus steps[k].Z) \ominus steps[1].Z
                               ELSE H0[q], E9)),
    Chk("same step: ratio and ceiling", \A k \in 1 .. n :
          Close(steps[k].rl \otimes steps[k].Z, steps[1].rl \otimes steps[1].Z, E9)),
    Chk("same step: displacements and contacts", \A k \in 2 .. n :
          LET d == Slack(y, steps[k]) IN
          \A q \in 1 .. y.m : steps[k].mask[y.n + q] => RAbs(d[q]) \preceq (o.tol \oplus SlackTol)),
    \* the recorded activity is that of the conditions met when the step starts
    Chk("same step: activity", \A k \in 1 .. n : LET d == Slack(y, steps[IF k = 1 THEN 1 ELSE k - 1]) IN
          \A q \in 1 .. y.m :
             /\ d[q] \preceq (o.tol \ominus SlackTol) => steps[k].mask[y.n + q]
             /\ (o.tol \oplus SlackTol) \prec d[q] => ~steps[k].mask[y.n + q]),
    Chk("same step: displacements and ceiling", \A k \in 2 .. n :
          LET d == Slack(y, steps[k]) IN \A q \in 1 .. y.m : RNeg(SlackTol) \preceq d[q]),
    Chk("conditions that do not exist", \A k \in 1 .. n : \A q \in 1 .. y.m :
          REq(H0[q], RInf) => REq(steps[k].H[q], RInf)) }
(* The matrices which the run returns.                                     *)
Matrices(T, M, y, o, pi4) ==
  IF ~(MeshShaped(M) /\ Shaped(T, FiberCols)) THEN {"shape"}
  ELSE UNION {
    Chk("returned stiffness", y.K.shape = << 2 * M.len, 2 * M.len >> /\ SameStiffness(T, M, o, y.K, pi4)),
    Chk("returned constraint", SameMatrix(y.C, ConstraintOf(T, M))) }
(* R: the run of the same problem with an interpolation size.              *)
ResampledHistory(r, R, size) ==
  UNION {
    Chk("number of times", \A v \in {"u", "f", "F", "H", "Z"} : Len(R.own[v]) = size),
    Chk("resampled values", \A v \in {"u", "f", "F", "H", "Z"} :
          LET Y == Column(r.steps, v)  n == Len(Y)
          IN  Len(R.own[v]) = size => \A k \in 1 .. size :
                LET x == Linear(Y, IF n = 1 THEN RInt(0) ELSE TimeOf(k, size))
                    big == 1 \oplus RMax(0, RMaxSeq([c \in DOMAIN x |-> IF IsFin(x[c]) THEN RAbs(x[c]) ELSE RInt(0)]))
                IN  /\ Len(R.own[v][k]) = Len(x)
                    /\ \A c \in DOMAIN x : IF IsFin(x[c])
                         THEN RAbs(R.own[v][k][c] \ominus x[c]) \preceq (E9 \otimes big)
                         ELSE REq(R.own[v][k][c], x[c])),
    Chk("recorded steps", Len(R.rl) = Len(r.steps)
          /\ \A k \in DOMAIN R.rl : Close(R.rl[k], r.steps[k].rl, E9)) }
=============================================================================
