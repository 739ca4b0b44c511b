----------------------------- MODULE Mechanics -----------------------------
(***************************************************************************)
(* The mechanical model: stiffness of the beams and contact conditions.    *)
(* Degrees of freedom of node k (from 0): displacement 2k, rotation 2k+1.  *)
(* pi4 stands for the number pi/4.                                         *)
(***************************************************************************)
EXTENDS Meshing

(*----------------------------------------------------------------- beams *)
Beams(M) == SelectSeq([i \in 1 .. M.len |-> i - 1], LAMBDA k : At(M, "beam", k) > k)
BeamLen(M, k) == At(M, "s", At(M, "beam", k)) \ominus At(M, "s", k)

(* Bounds on the lengths: linear rescaling of [lo, hi] onto [lmin, lmax].  *)
Rescale(l, lo, hi, lmin, lmax) ==
  LET a == RMin(lo, lmin)  b == RMax(hi, lmax)
  IN  IF REq(a, b) THEN lmin
      ELSE lmin \oplus (((l \ominus a) \otimes (lmax \ominus lmin)) \oslash (b \ominus a))
Lengths(M, B, lmin, lmax) ==
  LET raw == TLCEval([e \in DOMAIN B |-> BeamLen(M, B[e])])
      lo == RMinSeq(raw)  hi == RMaxSeq(raw)
      lmi == IF IsNull(lmin) THEN lo ELSE lmin
      lma == IF IsNull(lmax) THEN hi ELSE lmax
  IN  TLCEval([e \in DOMAIN B |-> Rescale(raw[e], lo, hi, lmi, lma)])
(* Bounds make sense if the lower one is not above the upper one.          *)
BoundsOk(M, B, lmin, lmax) ==
  LET raw == TLCEval([e \in DOMAIN B |-> BeamLen(M, B[e])])
  IN  (IF IsNull(lmin) THEN RMinSeq(raw) ELSE lmin) \preceq (IF IsNull(lmax) THEN RMaxSeq(raw) ELSE lmax)

(* Timoshenko element matrix, as the sequence of its 16 entries by rows.   *)
(* f is the fiber, l the length of the beam.                               *)
ElementMatrix(f, l, coupling, pi4) ==
  LET k0 == ((pi4 \otimes f.G \otimes f.b \otimes f.h) \oslash l)
              \oslash (1 \oplus ((f.G \oslash f.E) \otimes RSq(l \oslash f.h)))
      k1 == coupling \otimes (k0 \otimes Half(l))
      eg == (f.E \oslash f.G) \otimes RSq(f.h)
      kd == k0 \otimes ((RSq(l) \oslash 3) \oplus eg)
      ko == k0 \otimes ((RSq(l) \oslash 6) \ominus eg)
      m0 == RNeg(k0)  m1 == RNeg(k1)
  IN  << k0, k1, m0, k1,
         k1, kd, m1, ko,
         m0, m1, k0, m1,
         k1, ko, m1, kd >>
Stiffness(T, M, o, pi4) ==
  LET B == Beams(M)  m == Len(B)
      L == Lengths(M, B, o.lmin, o.lmax)
      E == TLCEval([e \in 1 .. m |-> ElementMatrix(Fib(T, At(M, "fiber", B[e])), L[e], o.coupling, pi4)])
      Dof(e, a) == IF a <= 2 THEN 2 * B[e] + a - 1 ELSE 2 * At(M, "beam", B[e]) + a - 3
      El(q) == (q - 1) \div 16 + 1
      Ent(q) == ((q - 1) % 16) + 1
  IN  [row |-> TLCEval([q \in 1 .. 16 * m |-> Dof(El(q), (Ent(q) - 1) \div 4 + 1)]),
       col |-> TLCEval([q \in 1 .. 16 * m |-> Dof(El(q), ((Ent(q) - 1) % 4) + 1)]),
       val |-> TLCEval([q \in 1 .. 16 * m |-> E[El(q)][Ent(q)]]),
       lengths |-> L]

Get(f, p) == IF p \in DOMAIN f THEN f[p] ELSE RInt(0)
AllZero(s) == \A i \in DOMAIN s : REq(s[i], 0)

(* The matrix y has the entries of the stiffness.  (Coincident nodes       *)
(* without a lower bound make no beam law.)                                *)
SameStiffness(T, M, o, y, pi4) ==
  LET X == Stiffness(T, M, o, pi4)
      E == SpMap(X.row, X.col, X.val)
      K == SpMap(y.row, y.col, y.val)
  IN  (BoundsOk(M, Beams(M), o.lmin, o.lmax) /\ \A e \in DOMAIN X.lengths : Q(1, 10000) \preceq X.lengths[e]) =>
         \A p \in DOMAIN E \cup DOMAIN K : Close(Get(K, p), Get(E, p), Q(1, 10000000))
(* C19: K, u, F, du, dF are the results y of the assembly.                 *)
StiffnessLaw(T, M, o, y, pi4) ==
  IF ~(MeshShaped(M) /\ Shaped(T, FiberCols)) THEN {"shape"}
  ELSE LET X == Stiffness(T, M, o, pi4)
           ok == BoundsOk(M, Beams(M), o.lmin, o.lmax)
           n == 2 * M.len
       IN  UNION {
         Chk("shape of K", y.shape = << n, n >>),
         Chk("entries of K", SameStiffness(T, M, o, y, pi4)),
         Chk("length bounds", ok => \A e \in DOMAIN X.lengths :
               /\ ~IsNull(o.lmin) => (o.lmin \ominus E9) \preceq X.lengths[e]
               /\ ~IsNull(o.lmax) => X.lengths[e] \preceq (o.lmax \oplus E9)),
         Chk("initial vectors", \A v \in {"u", "F", "du", "dF"} : Len(y[v]) = n /\ AllZero(y[v])) }

(* C20: symmetry, energy of the given fields, rigid motion, separation.    *)
StiffnessForm(T, M, y, fields) ==
  IF ~MeshShaped(M) THEN {"shape"}
  ELSE LET K == SpMap(y.row, y.col, y.val)
           n == 2 * M.len
           kmax == RMaxSeq([i \in DOMAIN y.val |-> RAbs(y.val[i])])
           tol == E10 \otimes (1 \oplus RMax(0, kmax))
           rigid == [i \in 1 .. n |-> RInt(IF i % 2 = 1 THEN 1 ELSE 0)]
           Kr == SpMul(n, y.row, y.col, y.val, rigid)
       IN  UNION {
         Chk("shape of K", y.shape = << n, n >>),
         Chk("symmetry", \A p \in DOMAIN K : Close(K[p], Get(K, << p[2], p[1] >>), E12)),
         Chk("energy", \A i \in DOMAIN fields :
               RNeg(tol) \preceq RDot(fields[i], SpMul(n, y.row, y.col, y.val, fields[i]))),
         Chk("rigid motion", \A i \in 1 .. n : RAbs(Kr[i]) \preceq tol),
         Chk("fibers interact", \A p \in DOMAIN K : REq(K[p], 0) \/
               At(M, "fiber", p[1] \div 2) = At(M, "fiber", p[2] \div 2)) }

(*-------------------------------------------------------------- contacts *)
(* The linked pairs (lower node, upper node) in order of the lower node.   *)
Links(M) == SelectSeq([i \in 1 .. M.len |-> i - 1], LAMBDA k : k <= At(M, "constraint", k))
Thick(T, M, k) == At(T, "h", At(M, "fiber", k))
Top(T, M) == RMaxSeq([i \in 1 .. M.len |-> M.c["z"][i] \oplus Half(Thick(T, M, i - 1))])
(* Initial gaps of the three conditions of the link of lower node i.       *)
Gaps(T, M, i) ==
  LET j == At(M, "constraint", i)
      zi == At(M, "z", i)  zj == At(M, "z", j)
      hi == Half(Thick(T, M, i))  hj == Half(Thick(T, M, j))
  IN  << zi \ominus hi,
         IF i = j THEN RInf ELSE (zj \ominus zi) \ominus (hi \oplus hj),
         (Top(T, M) \ominus zj) \ominus hj >>

(* C21 *)
ConstraintLaw(T, M, y, M1) ==
  IF ~(MeshShaped(M) /\ Shaped(T, FiberCols)) THEN {"shape"}
  ELSE LET L == TLCEval(Links(M))  m == Len(L)
           top == IF M.len = 0 THEN RInt(0) ELSE Top(T, M)
           Want(i) ==
             LET j == At(M, "constraint", i)
                 zi == At(M, "z", i)  zj == At(M, "z", j)
                 hi == Half(Thick(T, M, i))  hj == Half(Thick(T, M, j))
             IN  << zi \ominus hi,
                    IF i = j THEN RInf ELSE (zj \ominus zi) \ominus (hi \oplus hj),
                    (top \ominus zj) \ominus hj >>
           C == SpMap(y.row, y.col, y.val)
           nz == {p \in DOMAIN C : ~REq(C[p], 0)}
           want == UNION {LET i == L[r]  j == At(M, "constraint", i) IN
                      {<< 3 * (r - 1), 2 * i, -1 >>, << 3 * (r - 1) + 2, 2 * j, 1 >>} \cup
                      (IF i = j THEN {}
                       ELSE {<< 3 * (r - 1) + 1, 2 * i, 1 >>, << 3 * (r - 1) + 1, 2 * j, -1 >>}) : r \in 1 .. m}
       IN  UNION {
         Chk("shape of C", y.shape = << 3 * m, 2 * M.len >>),
         Chk("rows of C", /\ Cardinality(nz) = Cardinality(want)
                          /\ \A w \in want : << w[1], w[2] >> \in nz /\ REq(C[<< w[1], w[2] >>], w[3])),
         Chk("bounds", Len(y.H) = 3 * m /\ \A r \in 1 .. m : LET g == Want(L[r]) IN
               \A a \in 1 .. 3 : Close(y.H[3 * (r - 1) + a], g[a], E9)),
         Chk("ceiling", Len(y.dH) = 3 * m /\ \A q \in 1 .. 3 * m :
               REq(y.dH[q], IF q % 3 = 0 THEN 1 ELSE 0)),
         Chk("forces", \A v \in {"f", "df"} : Len(y[v]) = 3 * m /\ AllZero(y[v])),
         Chk("node thickness", "h" \in Range(M1.cols) /\ M1.len = M.len /\
               \A i \in 1 .. M.len : REq(M1.c["h"][i], Thick(T, M, i - 1))) }

(*------------------------------------------ the systems, as functions *)
Bounds0(T, M) ==
  LET L == TLCEval(Links(M))
      G == TLCEval([r \in DOMAIN L |-> Gaps(T, M, L[r])])
  IN  TLCEval([q \in 1 .. 3 * Len(L) |-> G[((q - 1) \div 3) + 1][((q - 1) % 3) + 1]])
Zeros(n) == [i \in 1 .. n |-> RInt(0)]
StiffnessOf(T, M, o, pi4) ==
  LET X == Stiffness(T, M, o, pi4)  n == 2 * M.len
  IN  [row |-> X.row, col |-> X.col, val |-> X.val, shape |-> << n, n >>,
       u |-> Zeros(n), F |-> Zeros(n), du |-> Zeros(n), dF |-> Zeros(n)]
ConstraintOf(T, M) ==
  LET L == TLCEval(Links(M))  m == 3 * Len(L)
      link(q) == L[(q - 1) \div 4 + 1]
      e(q) == ((q - 1) % 4) + 1
      self(q) == At(M, "constraint", link(q)) = link(q)
      all == [q \in 1 .. 4 * Len(L) |->
                LET r == 3 * ((q - 1) \div 4)  i == link(q)  j == At(M, "constraint", link(q))
                IN  CASE e(q) = 1 -> << r, 2 * i, RInt(-1) >>
                      [] e(q) = 2 -> << r + 1, 2 * i, RInt(1) >>
                      [] e(q) = 3 -> << r + 1, 2 * j, RInt(-1) >>
                      [] OTHER    -> << r + 2, 2 * j, RInt(1) >>]
      keep == SelectSeq([q \in DOMAIN all |-> q], LAMBDA q : ~(self(q) /\ e(q) \in {2, 3}))
      part(a) == TLCEval([k \in DOMAIN keep |-> all[keep[k]][a]])
  IN  [row |-> part(1), col |-> part(2), val |-> part(3), shape |-> << m, 2 * M.len >>,
       f |-> Zeros(m), df |-> Zeros(m), H |-> Bounds0(T, M),
       dH |-> [q \in 1 .. m |-> RInt(IF q % 3 = 0 THEN 1 ELSE 0)]]
(* Two matrices with the same entries.                                     *)
SameMatrix(y, z) ==
  LET A == SpMap(y.row, y.col, y.val)  B == SpMap(z.row, z.col, z.val)
  IN  y.shape = z.shape /\ \A p \in DOMAIN A \cup DOMAIN B : REq(Get(A, p), Get(B, p))
=============================================================================
