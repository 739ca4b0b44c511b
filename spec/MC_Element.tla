----------------------------- MODULE MC_Element -----------------------------
(***************************************************************************)
(* Assembly of the stiffness of two connected fibers as a machine: beams   *)
(* are put into the matrix one at a time, in any order.  The result is the *)
(* stiffness of module Mechanics whatever the order, and at any time the   *)
(* matrix is symmetric, stores no negative energy, gives no force for a    *)
(* vertical motion of a fiber (nor for a rotation, if fully coupled), and  *)
(* keeps the fibers apart.  The conditions of contact of the same mesh are *)
(* compared with positions.  For all places of the nodes (also the same    *)
(* places), moduli, length bounds and couplings.                           *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
CONSTANTS Links0,    \* number of connections (at most)
          AnyOrder,
          Rich        \* 0, 1, 2: more options
Claim == IOEnv.CLAIM
pi4 == Q(11, 14)

VARIABLES con,      \* connections <<sA, sB>> of the fibers 0 and 1, in halves
          kind,     \* materials
          raw0,     \* options
          mesh,     \* mesh of the fibers
          todo,     \* beams to be assembled
          K         \* assembled so far
vars == << con, kind, raw0, mesh, todo, K >>

(* l = 4; b, h, G, E of the two fibers.                                    *)
Materials == << << << RInt(1), RInt(1), RInt(2), RInt(60) >>, << RInt(1), RInt(1), RInt(2), RInt(60) >> >>,
                << << RInt(2), RInt(1), RInt(2), RInt(1) >>,  << RInt(1), RInt(3), Q(1, 2), RInf >> >>,
                << << RInt(1), Q(1, 2), RInt(3), RInf >>,     << Q(1, 4), RInt(2), RInt(5), RInt(7) >> >> >>
(* Options in hundredths, -1 for none.                                     *)
Lo == CASE Rich = 0 -> {-1, 50} [] Rich = 1 -> {-1, 50, 400} [] OTHER -> {-1, 1, 50, 100, 400}
Hi == CASE Rich = 0 -> {-1, 100} [] Rich = 1 -> {-1, 100, 900} [] OTHER -> {-1, 50, 100, 300, 900}
Couplings == IF Rich = 2 THEN {0, 50, 99, 100} ELSE {0, 50, 100}
Places == CASE Rich = 0 -> {-3, 1} [] Rich = 1 -> {-3, 0, 1} [] OTHER -> -3 .. 3
Hundredths(k) == IF k = -1 THEN "null" ELSE Q(k, 100)
opt == [lmin |-> Hundredths(raw0[1]), lmax |-> Hundredths(raw0[2]), coupling |-> Q(raw0[3], 100)]

T == FiberTable(TLCEval([i \in 1 .. 2 |-> LET m == Materials[kind][i] IN
       << RInt(4), m[1], m[2], RInt(0), RInt(0), RInt(3 * i), RInt(1), RInt(0), RInt(0), m[3], m[4] >>]), RInt(40))
RowAt(a, b, s, t) ==
  << a, b, s, t, RInt(a) \oplus s, RInt(a), RInt(3 * (a + 1)), RInt(b) \oplus t, RInt(b), RInt(3 * (b + 1)) >>
N0 == RowTable(TLCEval(<< RowAt(0, 0, RInt(2), RInt(-2)), RowAt(1, 1, RInt(2), RInt(-2)) >> \o
                       [k \in DOMAIN con |-> RowAt(0, 1, Q(con[k][1], 2), Q(con[k][2], 2))]),
               NetCols, {"A", "B"}, [n |-> 2, size |-> RInt(40), periodic |-> FALSE], "Net")
M == mesh

Sequences == {<< >>} \cup {<< c >> : c \in Places \X Places} \cup
             (IF Links0 < 2 THEN {} ELSE
              {<< c, d >> : c \in Places \X Places, d \in Places \X Places})
Increasing(s) == \A k \in 1 .. Len(s) - 1 : s[k] # s[k + 1] /\
                    (s[k][1] < s[k + 1][1] \/ (s[k][1] = s[k + 1][1] /\ s[k][2] < s[k + 1][2]))
Init == /\ con \in {s \in Sequences : Increasing(s)}
        /\ kind \in DOMAIN Materials
        /\ mesh = MeshOf(N0)
        /\ raw0 \in Lo \X Hi \X Couplings
        /\ LET m == M IN
             /\ BoundsOk(m, Beams(m), opt.lmin, opt.lmax)
             /\ LET X == Stiffness(T, m, opt, pi4) IN \A e \in DOMAIN X.lengths : Q(1, 10000) \preceq X.lengths[e]
             /\ todo = 1 .. Len(Beams(m))
        /\ K = << >>

Lens(m) == Lengths(m, Beams(m), opt.lmin, opt.lmax)
Entries(e) ==
  LET m == M  B == Beams(m)  t == TLCEval(T)
      v == ElementMatrix(Fib(t, At(m, "fiber", B[e])), Lens(m)[e], opt.coupling, pi4)
      dof(a) == IF a <= 2 THEN 2 * B[e] + a - 1 ELSE 2 * At(m, "beam", B[e]) + a - 3
  IN  {<< dof(a), dof(b), v[4 * (a - 1) + b] >> : a \in 1 .. 4, b \in 1 .. 4}
Assemble(e) ==
  /\ todo' = todo \ {e}
  /\ LET X == TLCEval(Entries(e))
         P == {<< x[1], x[2] >> : x \in X}
         new(p) == (CHOOSE x \in X : x[1] = p[1] /\ x[2] = p[2])[3]
     IN  K' = TLCEval([p \in DOMAIN K \cup P |-> IF p \in P THEN Get(K, p) \oplus new(p) ELSE K[p]])
  /\ UNCHANGED << con, kind, raw0, mesh >>
Next == \E e \in todo : (AnyOrder \/ \A d \in todo : e <= d) /\ Assemble(e)
Complete == todo = {}

(*-------------------------------------------------------------- theorems *)
Finite == \A i \in 1 .. 2 : IsFin(Materials[kind][i][4])
Force(k, u, n) == TLCEval([i \in 1 .. n |-> RSum([j \in 1 .. n |->
                     IF << i - 1, j - 1 >> \in DOMAIN k /\ ~REq(u[j], 0) THEN k[<< i - 1, j - 1 >>] \otimes u[j] ELSE RInt(0)])])
Stored(k, u, n) == RDot(u, Force(k, u, n))
Form ==
  LET m == M  n == 2 * m.len
      rise(f) == TLCEval([i \in 1 .. n |-> RInt(IF i % 2 = 1 /\ At(m, "fiber", (i - 1) \div 2) = f THEN 1 ELSE 0)])
      wave(a) == TLCEval([i \in 1 .. n |-> RInt(((a * i * i) % 5) - 2)])
      (* a turn of a fiber by the lengths which the beams have in the model *)
      L == TLCEval(Lens(m))  B == TLCEval(Beams(m))
      RECURSIVE Along(_)
      Along(k) == IF \E e \in DOMAIN B : At(m, "beam", B[e]) = k
                  THEN LET e == CHOOSE e \in DOMAIN B : At(m, "beam", B[e]) = k IN Along(B[e]) \oplus L[e]
                  ELSE RInt(0)
      turn == TLCEval([i \in 1 .. n |-> IF i % 2 = 1 THEN Along((i - 1) \div 2) ELSE RInt(1)])
  IN  /\ \A p \in DOMAIN K : REq(K[p], Get(K, << p[2], p[1] >>))
      /\ \A p \in DOMAIN K : At(m, "fiber", p[1] \div 2) = At(m, "fiber", p[2] \div 2)
      /\ \A f \in 0 .. 1 : AllZero(Force(K, rise(f), n))
      /\ Finite => \A a \in 1 .. 4 : 0 \preceq Stored(K, wave(a), n)
      /\ (Finite /\ REq(opt.coupling, 1)) => AllZero(Force(K, turn, n))
      /\ (Finite /\ opt.coupling \prec 1 /\ Complete) => 0 \prec Stored(K, turn, n)
Assembled ==
  Complete => LET m == M  t == TLCEval(T)
                  k == TLCEval(StiffnessOf(t, m, opt, pi4))
              IN  /\ LET S == SpMap(k.row, k.col, k.val) IN
                       DOMAIN S = DOMAIN K /\ \A p \in DOMAIN S : REq(S[p], K[p])
                  /\ StiffnessLaw(t, m, opt, k, pi4) = {}
                  /\ ConstraintLaw(t, m, ConstraintOf(t, m), WithThickness(t, m)) = {}
(* Bounds: in the range, in the same order, proportionally.                *)
Bounds ==
  (todo = 1 .. Len(Beams(M))) =>
    LET m == M  B == Beams(m)
        raw == TLCEval([e \in DOMAIN B |-> BeamLen(m, B[e])])  L == TLCEval(Lens(m))
    IN  /\ ~IsNull(opt.lmin) => \A e \in DOMAIN L : opt.lmin \preceq L[e]
        /\ ~IsNull(opt.lmax) => \A e \in DOMAIN L : L[e] \preceq opt.lmax
        /\ (IsNull(opt.lmin) /\ IsNull(opt.lmax)) => \A e \in DOMAIN L : REq(L[e], raw[e])
        /\ \A d, e \in DOMAIN L : (raw[d] \preceq raw[e]) => (L[d] \preceq L[e])
        /\ \A c, d, e \in DOMAIN L : REq((L[c] \ominus L[e]) \otimes (raw[d] \ominus raw[e]),
                                         (L[d] \ominus L[e]) \otimes (raw[c] \ominus raw[e]))
(* Conditions of contact hold for a displacement exactly when the moved    *)
(* nodes keep their distances.                                             *)
Contact ==
  (todo = 1 .. Len(Beams(M)) /\ kind = 2) =>
    LET m == M  t == TLCEval(T)  C == TLCEval(ConstraintOf(t, m))  n == 2 * m.len
        (* the fibers move down by i and j halves *)
        u(i, j) == TLCEval([d \in 1 .. n |-> IF d % 2 = 0 THEN RInt(1)
                               ELSE Q(-(IF At(m, "fiber", (d - 1) \div 2) = 0 THEN i ELSE j), 2)])
        ok(x) == LET c == SpMul(C.shape[1], C.row, C.col, C.val, x) IN \A q \in DOMAIN c : c[q] \preceq C.H[q]
        z(i) == RInt(3 * i)  h(i) == At(t, "h", i - 1)
        top == Top(t, m)
    IN  \A i \in -6 .. 6, j \in -6 .. 12 :
          LET a == z(1) \ominus Q(i, 2)  b == z(2) \ominus Q(j, 2) IN
          ok(u(i, j)) <=>
            /\ Half(h(1)) \preceq a /\ (a \oplus Half(h(1))) \preceq top
            /\ Half(h(2)) \preceq b /\ (b \oplus Half(h(2))) \preceq top
            /\ con # << >> => (a \oplus Gap(h(1), h(2))) \preceq b
Emit == Complete => PrintT("CASE " \o ToString(<< con, kind, raw0 >>))
=============================================================================
