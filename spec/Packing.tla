------------------------------ MODULE Packing ------------------------------
(***************************************************************************)
(* Compaction between a fixed floor and a moving ceiling.                  *)
(*                                                                         *)
(* A state of the compaction is  [u, f, F, H, Z, rl]: displacements and    *)
(* rotations of the nodes, contact forces, loads, bounds, position of the  *)
(* ceiling, packing ratio.  y holds the matrices K and C (triples).        *)
(***************************************************************************)
EXTENDS Mechanics

SlackTol == Q(1, 10000000)

KMul(y, u) == SpMul(y.n, y.K.row, y.K.col, y.K.val, u)
CMul(y, u) == SpMul(y.m, y.C.row, y.C.col, y.C.val, u)
CTMul(y, f) == SpMul(y.n, y.C.col, y.C.row, y.C.val, f)
(* Gaps of all contact conditions in state s.                              *)
Slack(y, s) == LET cu == CMul(y, s.u) IN TLCEval([r \in 1 .. y.m |-> s.H[r] \ominus cu[r]])
Slacks(y, steps) == TLCEval([k \in DOMAIN steps |-> Slack(y, steps[k])])

StepsShaped(T, M, y, steps) ==
  /\ MeshShaped(M) /\ Shaped(T, FiberCols)
  /\ y.n = 2 * M.len /\ y.m = 3 * Len(Links(M))
  /\ Len(steps) >= 1
  /\ \A k \in DOMAIN steps :
       /\ Len(steps[k].u) = y.n /\ Len(steps[k].F) = y.n
       /\ Len(steps[k].f) = y.m /\ Len(steps[k].H) = y.m

Disp(s, node) == s.u[2 * node + 1]
Height(M, s, node) == At(M, "z", node) \oplus Disp(s, node)

(* C22, stated on the positions of the nodes.                              *)
NoCrossing(T, M, y, steps) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE LET L == TLCEval(Links(M)) IN UNION {
    Chk("floor", \A k \in DOMAIN steps : \A i \in 0 .. M.len - 1 :
          (Half(Thick(T, M, i)) \ominus SlackTol) \preceq Height(M, steps[k], i)),
    Chk("ceiling", \A k \in DOMAIN steps : \A i \in 0 .. M.len - 1 :
          (Height(M, steps[k], i) \oplus Half(Thick(T, M, i))) \preceq (steps[k].Z \oplus SlackTol)),
    Chk("contact", \A k \in DOMAIN steps : \A r \in DOMAIN L :
          LET i == L[r]  j == At(M, "constraint", i) IN
          i # j => ((Height(M, steps[k], i) \oplus Gap(Thick(T, M, i), Thick(T, M, j))) \ominus SlackTol)
                      \preceq Height(M, steps[k], j)) }

(* C23 *)
ForceScale(s) == 1 \oplus RMaxSeq([r \in DOMAIN s.f |-> RAbs(s.f[r])])
Equilibrium(T, M, y, steps, tol) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE UNION {
    Chk("no load", \A k \in DOMAIN steps : AllZero(steps[k].F)),
    Chk("balance", \A k \in DOMAIN steps :
          LET a == KMul(y, steps[k].u)  b == CTMul(y, steps[k].f)
              sc == E6 \otimes ForceScale(steps[k])
          IN  \A i \in 1 .. y.n : RAbs((a[i] \oplus b[i]) \ominus steps[k].F[i]) \preceq sc),
    Chk("force on open contact", \A k \in DOMAIN steps :
          LET d == Slack(y, steps[k])  sc == E6 \otimes ForceScale(steps[k])
          IN  \A r \in 1 .. y.m : RAbs(steps[k].f[r]) \preceq sc \/ d[r] \preceq (tol \oplus SlackTol)) }

(* C24 *)
(* Jammed: somewhere touching bodies fill the room from floor to ceiling.  *)
Jammed(y, s, tol) ==
  LET d == Slack(y, s) IN
  \E i \in 0 .. (y.m \div 3) - 1 : \A a \in 1 .. 3 :
     d[3 * i + a] \preceq (tol \oplus SlackTol) \/ (a = 2 /\ REq(s.H[3 * i + a], RInf))
Progress(T, M, y, steps, o) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE LET n == Len(steps)
           z0 == IF M.len = 0 THEN RInt(0) ELSE Top(T, M)
       IN  UNION {
    Chk("initial ceiling", Close(steps[1].Z, z0, E9)),
    Chk("ceiling decreases", \A k \in 1 .. n - 1 : steps[k + 1].Z \prec steps[k].Z),
    Chk("initial ratio", REq(steps[1].rl, 1)),
    Chk("packing ratio", \A k \in 1 .. n : M.len > 0 => Close(steps[k].rl \otimes steps[k].Z, steps[1].Z, E9)),
    Chk("too many steps", n - 1 <= o.itermax),
    Chk("step beyond the target", \A k \in 1 .. n - 1 : steps[k].rl \prec o.packing),
    Chk("error of an accepted step", \A k \in 1 .. n : steps[k].err \preceq o.errtol),
    Chk("stopped early", \/ o.packing \preceq steps[n].rl \/ n - 1 = o.itermax \/ o.mayJam
                          \/ Jammed(y, steps[n], o.tol)) }

(* C25: d[k] are the gaps in state k.                                      *)
StepLaw(T, M, y, steps, o) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE LET d == Slacks(y, steps)  n == Len(steps)
           eps == Q(1, 100000000)
           Closed(k, r) == d[k][r] \preceq (o.tol \ominus eps)
           Open(k, r) == (o.tol \oplus eps) \prec d[k][r]
           ContactRow(r) == r % 3 # 2 \/ IsFin(steps[1].H[r])
       IN  UNION {
    Chk("bounds follow the ceiling", \A k \in 1 .. n : \A r \in 1 .. y.m :
          Close(steps[k].H[r], steps[1].H[r] \oplus
                (IF r % 3 = 0 THEN steps[k].Z \ominus steps[1].Z ELSE RInt(0)), E9)),
    Chk("contact lost", \A k \in 1 .. n - 1 : \A r \in 1 .. y.m :
          Closed(k, r) => RAbs(d[k + 1][r] \ominus d[k][r]) \preceq SlackTol),
    Chk("force appears on open contact", \A k \in 1 .. n - 1 : \A r \in 1 .. y.m :
          Open(k, r) => REq(steps[k + 1].f[r], steps[k].f[r])),
    Chk("step does not end at a contact", \A k \in 1 .. n - 1 :
          \E r \in 1 .. y.m : ~Closed(k, r) /\ d[k + 1][r] \preceq SlackTol),
    Chk("active contacts", \A k \in 1 .. n : LET p == IF k = 1 THEN 1 ELSE k - 1 IN
          Len(steps[k].mask) = y.n + y.m /\ \A r \in 1 .. y.m :
             /\ Closed(p, r) => steps[k].mask[y.n + r]
             /\ Open(p, r) => ~steps[k].mask[y.n + r]) }

(* C27 *)
Wall(y, s, a) == RSum([i \in 1 .. y.m \div 3 |-> s.f[3 * (i - 1) + a]])
WallBalance(T, M, y, steps) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE LET n == Len(steps)
           top == TLCEval([k \in 1 .. n |-> Wall(y, steps[k], 3)])
           bot == TLCEval([k \in 1 .. n |-> Wall(y, steps[k], 1)])
           tol == E6 \otimes (1 \oplus RMax(0, RMaxSeq(top)))
       IN  UNION {
    Chk("floor and ceiling balance", \A k \in 1 .. n : RAbs(top[k] \ominus bot[k]) \preceq tol),
    Chk("pulling ceiling", \A k \in 1 .. n : RNeg(tol) \preceq top[k]),
    Chk("load decreases", \A k \in 1 .. n - 1 : (top[k] \ominus tol) \preceq top[k + 1]) }

(* C26: two recorded histories of the same problem; prefix: the second one *)
(* was asked to stop earlier.  Compared unless some gap comes so near to   *)
(* the contact tolerance that rounding may change the active set.          *)
Ambiguous(y, steps, tol) ==
  \E k \in DOMAIN steps : LET d == Slack(y, steps[k]) IN
    \E r \in 1 .. y.m : (tol \otimes Q(1, 100)) \prec d[r] /\ d[r] \prec (tol \otimes 100)
SameHistory(y, P, Q2, prefix, tol) ==
  IF Ambiguous(y, P, tol) THEN {}
  ELSE UNION {
    Chk("number of steps", IF prefix THEN Len(Q2) <= Len(P) ELSE Len(P) = Len(Q2)),
    Chk("ceiling", \A k \in 1 .. Len(Q2) : k <= Len(P) => Close(P[k].Z, Q2[k].Z, E6)),
    Chk("displacements", \A k \in 1 .. Len(Q2) : k <= Len(P) => CloseSeq(P[k].u, Q2[k].u, Q(1, 100000))),
    Chk("forces", \A k \in 1 .. Len(Q2) : k <= Len(P) =>
          LET sc == Q(1, 100000) \otimes ForceScale(P[k]) IN
          /\ Len(P[k].f) = Len(Q2[k].f)
          /\ \A r \in DOMAIN P[k].f : RAbs(P[k].f[r] \ominus Q2[k].f[r]) \preceq sc) }

(* C36: the history of a problem in other units (lengths times lam, moduli *)
(* times mu), seen in the units of P.                                      *)
InUnits(steps, lam, mu) ==
  LET fo == mu \otimes RSq(lam) IN
  TLCEval([k \in DOMAIN steps |->
    [u |-> TLCEval([i \in DOMAIN steps[k].u |-> IF i % 2 = 1 THEN steps[k].u[i] \otimes lam ELSE steps[k].u[i]]),
     f |-> TLCEval([r \in DOMAIN steps[k].f |-> steps[k].f[r] \otimes fo]),
     H |-> TLCEval([r \in DOMAIN steps[k].H |-> IF IsFin(steps[k].H[r]) THEN steps[k].H[r] \otimes lam ELSE steps[k].H[r]]),
     Z |-> steps[k].Z \otimes lam, rl |-> steps[k].rl]])
InOtherUnits(y, P0, Q2, lam, mu, tol) ==
  IF Ambiguous(y, P0, tol) THEN {}
  ELSE LET P == InUnits(P0, lam, mu)
           fo == mu \otimes RSq(lam)
           small == Q(1, 100000) IN UNION {
    Chk("number of steps", Len(P) = Len(Q2)),
    Chk("ceiling", \A k \in 1 .. Len(Q2) : k <= Len(P) => Close(P[k].Z, Q2[k].Z, E6)),
    Chk("packing ratio", \A k \in 1 .. Len(Q2) : k <= Len(P) => Close(P[k].rl, Q2[k].rl, E6)),
    Chk("displacements and rotations", \A k \in 1 .. Len(Q2) : k <= Len(P) =>
          /\ Len(P[k].u) = Len(Q2[k].u)
          /\ \A i \in DOMAIN P[k].u :
               RAbs(P[k].u[i] \ominus Q2[k].u[i]) \preceq
                 ((IF i % 2 = 1 THEN lam ELSE RInt(1)) \otimes small)),
    Chk("bounds", \A k \in 1 .. Len(Q2) : k <= Len(P) =>
          /\ Len(P[k].H) = Len(Q2[k].H)
          /\ \A r \in DOMAIN P[k].H :
               IF IsFin(P[k].H[r]) /\ IsFin(Q2[k].H[r])
               THEN RAbs(P[k].H[r] \ominus Q2[k].H[r]) \preceq (lam \otimes small)
               ELSE REq(P[k].H[r], Q2[k].H[r])),
    Chk("forces", \A k \in 1 .. Len(Q2) : k <= Len(P) =>
          LET sc == small \otimes (fo \otimes ForceScale(P0[k])) IN
          /\ Len(P[k].f) = Len(Q2[k].f)
          /\ \A r \in DOMAIN P[k].f : RAbs(P[k].f[r] \ominus Q2[k].f[r]) \preceq sc) }
(* The heights of the fibers before the compaction.                        *)
HeightsInUnits(T0, T, lam) ==
  Chk("heights", T.len = T0.len /\ \A i \in 1 .. T.len :
        RAbs((lam \otimes T0.c["z"][i]) \ominus T.c["z"][i]) \preceq (lam \otimes StackTol))

(* C38: the fibers store the work of the ceiling.                          *)
Energy(y, s) == Half(RDot(s.u, KMul(y, s.u)))
WorkLaw(T, M, y, steps) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE LET n == Len(steps)
           en == TLCEval([k \in 1 .. n |-> Energy(y, steps[k])])
           top == TLCEval([k \in 1 .. n |-> Wall(y, steps[k], 3)])
           work(k) == Half((top[k] \oplus top[k + 1]) \otimes (steps[k].Z \ominus steps[k + 1].Z))
           tol == E6 \otimes (1 \oplus (RMaxSeq([k \in 1 .. n |-> RAbs(top[k])]) \otimes steps[1].Z))
       IN  UNION {
    Chk("energy at the start", RAbs(en[1]) \preceq tol),
    Chk("work of the ceiling", \A k \in 1 .. n - 1 :
          RAbs((en[k + 1] \ominus en[k]) \ominus work(k)) \preceq tol),
    Chk("energy decreases", \A k \in 1 .. n - 1 : (en[k] \ominus tol) \preceq en[k + 1]) }

(*------------------------------------------------- drawing of the system *)
(* C37: the marks of every category in the drawing of the permuted system. *)
(* perm[a + 1] is the unknown drawn in row and column a.                   *)
PlotLaw(K, C, d) ==
  LET n == Len(K.u)  m == Len(C.f)
      perm == IF IsNull(d.perm) THEN [a \in 1 .. n + m |-> a - 1] ELSE d.perm
      place == TLCEval([q \in 0 .. n + m - 1 |-> (CHOOSE a \in 1 .. n + m : perm[a] = q) - 1])
      cu == TLCEval(SpMul(m, C.row, C.col, C.val, K.u))
      gap(r) == RAbs(cu[r] \ominus C.H[r])
      near(r) == Q(1, 100000000) \oplus (RAbs(C.H[r]) \otimes Q(1, 100000))
      closed == TLCEval({r \in 1 .. m : IsFin(C.H[r]) /\ gap(r) \preceq near(r)})
      unclear == \E r \in 1 .. m : IsFin(C.H[r]) /\ (Half(near(r))) \preceq gap(r) /\ gap(r) \preceq (2 \otimes near(r))
      Km == SpMap(K.row, K.col, K.val)
      Cm == SpMap(C.row, C.col, C.val)
      OfK == {<< place[p[1]], place[p[2]] >> : p \in {p \in DOMAIN Km : ~REq(Km[p], 0)}}
      OfC(S) == UNION {{<< place[n + p[1]], place[p[2]] >>, << place[p[2]], place[n + p[1]] >>} :
                         p \in {p \in DOMAIN Cm : ~REq(Cm[p], 0) /\ (p[1] + 1) \in S}}
      Kind(a) == {r \in closed : r % 3 = a}
      Marks(k) == {<< q[1], q[2] >> : q \in Range(d.marks[k])}
  IN  IF unclear THEN {} ELSE UNION {
    Chk("categories", DOMAIN d.marks = {"stiffness", "inner", "lower", "upper", "inactive"}),
    Chk("stiffness", Marks("stiffness") = OfK),
    Chk("lower contacts", Marks("lower") = OfC(Kind(1))),
    Chk("inner contacts", Marks("inner") = OfC(Kind(2))),
    Chk("upper contacts", Marks("upper") = OfC(Kind(0))),
    Chk("inactive contacts", Marks("inactive") = OfC((1 .. m) \ closed)),
    Chk("axes", d.sameAxes),
    Chk("error of the step", d.small => RAbs(d.err) \preceq Q(1, 1000000)) }

(*------------------------------------------- the compaction as a machine *)
(* One step of the compaction from state s: the linear response of the     *)
(* bodies in contact to a unit motion of the ceiling, followed until the   *)
(* next gap closes.  Returns [ok, state]; ok is FALSE when the response is *)
(* not unique or nothing further can close.                                *)
Dense(n, f) == [i \in 1 .. n |-> [j \in 1 .. n |-> Get(f, << i - 1, j - 1 >>)]]
Response(y, act) ==     \* act: sequence of the closed contact rows
  LET n == y.n  a == Len(act)
      K == SpMap(y.K.row, y.K.col, y.K.val)
      C == SpMap(y.C.row, y.C.col, y.C.val)
      Ent(i, j) ==
        IF i <= n /\ j <= n THEN Get(K, << i - 1, j - 1 >>)
        ELSE IF i <= n THEN Get(C, << act[j - n] - 1, i - 1 >>)
        ELSE IF j <= n THEN Get(C, << act[i - n] - 1, j - 1 >>)
        ELSE RInt(0)
      A == TLCEval([i \in 1 .. n + a |-> TLCEval([j \in 1 .. n + a |-> Ent(i, j)])])
      b == TLCEval([i \in 1 .. n + a |-> IF i > n /\ act[i - n] % 3 = 0 THEN RInt(1) ELSE RInt(0)])
  IN  RSolve(A, b)
ActiveRows(y, s, tol) ==
  LET d == Slack(y, s)
      C == SpMap(y.C.row, y.C.col, y.C.val)
  IN  SelectSeq([r \in 1 .. y.m |-> r], LAMBDA r : d[r] \preceq tol)
NextEvent(y, s, tol) ==
  LET act == ActiveRows(y, s, tol)
      x == Response(y, act)
  IN  IF x = << >> THEN [ok |-> FALSE, why |-> "no unique response"]
      ELSE LET du == TLCEval([i \in 1 .. y.n |-> x[i]])
               cu == CMul(y, du)
               d == Slack(y, s)
               v == TLCEval([r \in 1 .. y.m |-> RSub(IF r % 3 = 0 THEN 1 ELSE 0, cu[r])])
               next == {r \in 1 .. y.m : tol \prec d[r] /\ 0 \prec v[r]}
           IN  IF next = {} THEN [ok |-> FALSE, why |-> "jammed"]
               ELSE LET step == RNeg(RMinSeq([r \in 1 .. y.m |->
                                   IF r \in next THEN d[r] \oslash v[r] ELSE RInf]))
                        pos == [r \in 1 .. y.m |-> IF \E i \in DOMAIN act : act[i] = r
                                                   THEN CHOOSE i \in DOMAIN act : act[i] = r ELSE 0]
                    IN  [ok |-> TRUE,
                         state |-> [u |-> TLCEval([i \in 1 .. y.n |-> s.u[i] \oplus (step \otimes du[i])]),
                                    f |-> TLCEval([r \in 1 .. y.m |-> IF pos[r] = 0 THEN s.f[r]
                                             ELSE s.f[r] \oplus (step \otimes x[y.n + pos[r]])]),
                                    F |-> s.F,
                                    H |-> TLCEval([r \in 1 .. y.m |-> IF r % 3 = 0 THEN s.H[r] \oplus step
                                                             ELSE s.H[r]]),
                                    Z |-> s.Z \oplus step]]

(* Logged history against the machine, step by step, starting every step   *)
(* from the logged state.                                                  *)
MachineStep(y, s, t, tol) ==
  LET e == NextEvent(y, s, tol)
      d == Slack(y, s)
      unclear == \E r \in 1 .. y.m : RAbs(d[r] \ominus tol) \preceq Q(1, 10000000)
  IN  IF unclear \/ ~e.ok THEN {}
      ELSE UNION {
        Chk("machine: ceiling", Close(e.state.Z, t.Z, E6)),
        Chk("machine: displacements", CloseSeq(e.state.u, t.u, E6)),
        Chk("machine: forces", LET sc == E6 \otimes ForceScale(t) IN
              \A r \in 1 .. y.m : RAbs(e.state.f[r] \ominus t.f[r]) \preceq sc) }
Machine(T, M, y, steps, o) ==
  IF ~StepsShaped(T, M, y, steps) THEN {"shape"}
  ELSE LET n == Len(steps)
           last == steps[n]
           e == NextEvent(y, last, o.tol)
       IN  (UNION {MachineStep(y, steps[k], steps[k + 1], o.tol) : k \in 1 .. n - 1}) \cup
           Chk("machine: stopped although a contact is ahead",
               o.packing \preceq last.rl \/ n - 1 = o.itermax \/ ~e.ok)
=============================================================================
