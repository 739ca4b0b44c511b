------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* Networks: which fibers are connected and where.                         *)
(***************************************************************************)
EXTENDS Fibers

Dot3(a, b) == (a[1] \otimes b[1]) \oplus (a[2] \otimes b[2]) \oplus (a[3] \otimes b[3])
Dir(T, i) == << At(T, "u", i), At(T, "v", i), At(T, "w", i) >>
Ctr(T, i) == << At(T, "x", i), At(T, "y", i), At(T, "z", i) >>
Add3(a, b) == << a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3] >>
Sub3(a, b) == << a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3] >>
Scale3(k, a) == << k \otimes a[1], k \otimes a[2], k \otimes a[3] >>
MeanLen(T, i, j) == Half(At(T, "l", i) \oplus At(T, "l", j))

(* Mutually nearest points of the lines of fiber i and of fiber j shifted  *)
(* by the vector sh: abscissas along the two fibers, and the determinant   *)
(* (the squared sine of their angle), which is zero for parallel lines.    *)
Nearest(T, i, j, sh) ==
  LET ui == Dir(T, i)  uj == Dir(T, j)
      r == Sub3(Add3(Ctr(T, j), sh), Ctr(T, i))
      a == Dot3(ui, ui)  b == Dot3(ui, uj)  c == Dot3(uj, uj)
      p == Dot3(ui, r)   q == Dot3(uj, r)
      det == (a \otimes c) \ominus RSq(b)
  IN  IF REq(det, 0) THEN [det |-> det, si |-> 0, sj |-> 0]
      ELSE [det |-> det,
            si |-> ((p \otimes c) \ominus (b \otimes q)) \oslash det,
            sj |-> ((b \otimes p) \ominus (a \otimes q)) \oslash det]

Dist2(T, i, j, sh) ==
  RSq((At(T, "x", j) \oplus sh[1]) \ominus At(T, "x", i)) \oplus
  RSq((At(T, "y", j) \oplus sh[2]) \ominus At(T, "y", i))

(* Does fiber i cross fiber j shifted by sh?  "maybe" when rounding could  *)
(* decide: within margin m of an end, or for nearly parallel fibers; with  *)
(* m = 0 the answer is exact.                                              *)
Crossing(T, i, j, sh, m) ==
  LET d2 == Dist2(T, i, j, sh)
      ml == MeanLen(T, i, j)
  IN  IF RSq(ml \oplus m) \preceq d2 THEN "no"
      ELSE LET N == Nearest(T, i, j, sh)
               li == Half(At(T, "l", i))  lj == Half(At(T, "l", j))
               ai == RAbs(N.si)  aj == RAbs(N.sj)
           IN  IF REq(N.det, 0) THEN "no"
               ELSE IF ~REq(m, 0) /\ N.det \prec Q(1, 1000000) THEN "maybe"
               ELSE IF (li \oplus m) \preceq ai \/ (lj \oplus m) \preceq aj THEN "no"
               ELSE IF /\ ai \prec (li \ominus m) /\ aj \prec (lj \ominus m)
                       /\ d2 \prec RSq(ml \ominus m) THEN "yes"
               ELSE "maybe"

(* Shifts of whole boxes for which the two fibers are near enough.         *)
ShiftsAlong(T, k, i, j, periodic, m) ==
  IF ~periodic THEN {0}
  ELSE {a \in {-1, 0, 1} :
          RAbs((At(T, k, j) \oplus RMul(a, T.attrs.size)) \ominus At(T, k, i))
             \prec (MeanLen(T, i, j) \oplus m \oplus E9)}
Shifts(T, i, j, periodic, m) ==
  {<< RMul(a, T.attrs.size), RMul(b, T.attrs.size), RInt(0) >> :
      a \in ShiftsAlong(T, "x", i, j, periodic, m), b \in ShiftsAlong(T, "y", i, j, periodic, m)}

(* Must / may two distinct fibers be connected?                            *)
Connectable(T, i, j, periodic, m) ==
  LET R == {Crossing(T, i, j, sh, m) : sh \in Shifts(T, i, j, periodic, m)}
  IN  IF "yes" \in R THEN "yes" ELSE IF "maybe" \in R THEN "maybe" ELSE "no"

(* Margin for rounding: none if the data are exactly representable.        *)
Margin(T, exact) ==
  IF exact THEN RInt(0) ELSE Q(1, 100000000) \otimes (1 \oplus T.attrs.size \oplus RMax(0, RMaxSeq(T.c["l"])))
LMax(T) == RMax(0, RMaxSeq(T.c["l"]))

(*--------------------------------------------------------------- the rows *)
RowsAB(N) == [k \in 1 .. N.len |-> << N.c["A"][k], N.c["B"][k] >>]
PairSet(N) == {<< N.c["A"][k], N.c["B"][k] >> : k \in 1 .. N.len}
Pairs(n) == {p \in (0 .. n - 1) \X (0 .. n - 1) : p[1] < p[2]}
NetShaped(T, N) ==
  /\ Shaped(N, NetCols) /\ IsIntCol(N, "A") /\ IsIntCol(N, "B")
  /\ \A k \in 1 .. N.len : N.c["A"][k] \in 0 .. T.len - 1 /\ N.c["B"][k] \in 0 .. T.len - 1

(* C04 / C05: connected exactly when crossing; each pair at most once.     *)
Connectivity(T, N, periodic, exact) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE LET S == PairSet(N)
           m == Margin(T, exact)
       IN  UNION {
         Chk("missing connection", \A p \in Pairs(T.len) :
               (p \in S \/ << p[2], p[1] >> \in S) \/ Connectable(T, p[1], p[2], periodic, m) # "yes"),
         Chk("spurious connection", \A p \in S :
               p[1] # p[2] => Connectable(T, p[1], p[2], periodic, m) # "no"),
         Chk("repeated connection", Cardinality(S) = N.len) }

(* The abscissas of a periodic connection are those of a real crossing.    *)
RealCrossing(T, N, periodic, exact) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE LET m == Margin(T, exact) IN
    Chk("not at a crossing", \A k \in 1 .. N.len :
      LET i == N.c["A"][k]  j == N.c["B"][k] IN
      i # j => \E sh \in Shifts(T, i, j, periodic, m) :
        /\ Crossing(T, i, j, sh, m) # "no"
        /\ LET P == Nearest(T, i, j, sh)
               tol == IF REq(P.det, 0) THEN E9
                      ELSE E9 \oplus ((E12 \otimes (1 \oplus T.attrs.size)) \oslash P.det)
           IN  Close(P.si, N.c["sA"][k], tol) /\ Close(P.sj, N.c["sB"][k], tol))

(* C06 *)
NodeOnFiber(T, N, k, side) ==
  LET i == IF side = "A" THEN N.c["A"][k] ELSE N.c["B"][k]
      s == IF side = "A" THEN N.c["sA"][k] ELSE N.c["sB"][k]
      P == IF side = "A" THEN << N.c["xA"][k], N.c["yA"][k], N.c["zA"][k] >>
                         ELSE << N.c["xB"][k], N.c["yB"][k], N.c["zB"][k] >>
      X == Add3(Ctr(T, i), Scale3(s, Dir(T, i)))
  IN  \A a \in 1 .. 3 : Close(P[a], X[a], E9)
NodePos(N, k, side) == IF side = "A" THEN << N.c["xA"][k], N.c["yA"][k], N.c["zA"][k] >>
                                     ELSE << N.c["xB"][k], N.c["yB"][k], N.c["zB"][k] >>
BoxShifts(T, periodic) ==
  IF ~periodic THEN {<< RInt(0), RInt(0), RInt(0) >>}
  ELSE {<< RMul(a, T.attrs.size), RMul(b, T.attrs.size), RInt(0) >> :
           a \in {-1, 0, 1}, b \in {-1, 0, 1}}
Perpendicular(T, N, k, periodic) ==
  LET ui == Dir(T, N.c["A"][k])  uj == Dir(T, N.c["B"][k])
      e0 == Sub3(NodePos(N, k, "B"), NodePos(N, k, "A"))
      sc == E9 \otimes (1 \oplus LMax(T) \oplus T.attrs.size)
  IN  \E sh \in BoxShifts(T, periodic) :
        LET e == Add3(e0, sh)
        IN  RAbs(Dot3(e, ui)) \preceq sc /\ RAbs(Dot3(e, uj)) \preceq sc
Nodes(T, N, periodic) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE UNION {
    Chk("node A not on its fiber", \A k \in 1 .. N.len : NodeOnFiber(T, N, k, "A")),
    Chk("node B not on its fiber", \A k \in 1 .. N.len : NodeOnFiber(T, N, k, "B")),
    Chk("abscissa outside of the fiber", \A k \in 1 .. N.len :
          N.c["A"][k] # N.c["B"][k] =>
            /\ RAbs(N.c["sA"][k]) \prec Half(At(T, "l", N.c["A"][k]))
            /\ RAbs(N.c["sB"][k]) \prec Half(At(T, "l", N.c["B"][k]))),
    Chk("not mutually nearest", \A k \in 1 .. N.len :
          N.c["A"][k] # N.c["B"][k] => Perpendicular(T, N, k, periodic)) }

(* C07 *)
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
EndRow(T, N, k) ==
  LET l == Half(At(T, "l", N.c["A"][k]))
  IN  REq(N.c["sA"][k], l) /\ REq(N.c["sB"][k], RNeg(l))
Canonical(T, N, periodic) ==
  IF ~NetShaped(T, N) THEN {"shape"}
  ELSE LET R == RowsAB(N) IN UNION {
    Chk("labels", Labelled(N)),
    Chk("A <= B", \A k \in 1 .. N.len : R[k][1] <= R[k][2]),
    Chk("sorted without repetition", \A k \in 1 .. N.len - 1 : LexLess(R[k], R[k + 1])),
    Chk("fiber ends", {R[k][1] : k \in {k \in 1 .. N.len : R[k][1] = R[k][2]}} = 0 .. T.len - 1),
    Chk("abscissas of fiber ends", \A k \in 1 .. N.len : R[k][1] = R[k][2] => EndRow(T, N, k)),
    Chk("attributes", /\ HasAttr(N, "n") /\ N.attrs.n = T.len
                      /\ HasAttr(N, "size") /\ REq(N.attrs.size, T.attrs.size)
                      /\ HasAttr(N, "periodic") /\ N.attrs.periodic = periodic) }

(* C09 *)
LabelRange(N) == (HasAttr(N, "n") /\ HasCols(N, << "A", "B" >>)) =>
  \A k \in 1 .. N.len : /\ 0 \preceq N.c["A"][k] /\ N.c["A"][k] \prec N.attrs.n
                        /\ 0 \preceq N.c["B"][k] /\ N.c["B"][k] \prec N.attrs.n
NetKey(N, k) == << N.c["A"][k], N.c["B"][k], N.c["sA"][k], N.c["sB"][k] >>
NetDefects(N) ==
  UNION { Chk("KeyError", HasCols(N, NetCols)),
          Chk("AttributeError", Attributes(N, << "n", "size", "periodic" >>)),
          Chk("IndexError", Labelled(N)),
          Chk("TypeError", \A c \in {"A", "B"} \cap Range(N.cols) : IsIntCol(N, c)),
          Chk("ValueError", LabelRange(N)),
          Chk("ValueError", HasCols(N, << "A", "B", "sA", "sB" >>) =>
                Cardinality({NetKey(N, k) : k \in 1 .. N.len}) = N.len),
          Chk("ValueError", HasCols(N, << "A", "B" >>) =>
                \A k \in 1 .. N.len : N.c["A"][k] \preceq N.c["B"][k]) }
NetVerdict(N) == IF SkipCheck(N) THEN {"ok"} ELSE Outcomes(NetDefects(N))

(* C10 : F is the full network, N the one restricted to the pairs P.       *)
NormPair(p) == IF p[1] <= p[2] THEN p ELSE << p[2], p[1] >>
NetRow(N, k) == [c \in Range(NetCols) |-> N.c[c][k]]
CloseRow(N, k, F, j) == \A c \in Range(NetCols) \ {"A", "B"} : Close(N.c[c][k], F.c[c][j], E9)
Restricted(T, F, N, P) ==
  IF ~(NetShaped(T, N) /\ NetShaped(T, F)) THEN {"shape"}
  ELSE LET want == {NormPair(P[i]) : i \in DOMAIN P}
           K == {k \in 1 .. F.len : << F.c["A"][k], F.c["B"][k] >> \in want}
           S == PairSet(N)
           pos == [p \in {<< F.c["A"][k], F.c["B"][k] >> : k \in K} |->
                     CHOOSE k \in K : << F.c["A"][k], F.c["B"][k] >> = p]
       IN  UNION {
         Chk("pairs", S = DOMAIN pos),
         Chk("repeated pair", Cardinality(S) = N.len),
         Chk("labels", Labelled(N)),
         Chk("rows", \A k \in 1 .. N.len :
               LET p == << N.c["A"][k], N.c["B"][k] >> IN
               p \in DOMAIN pos => CloseRow(N, k, F, pos[p])) }

(* C08 : the network N of T and the network M of the transformed set U.    *)
(* perm: new label of every fiber; rev: reversed fibers; scale: unit;      *)
(* exact: the data of both sets are exactly representable.                 *)
Transformed(T, N, U, M, tr, periodic) ==
  IF ~(NetShaped(T, N) /\ NetShaped(U, M)) THEN {"shape"}
  ELSE LET New(i) == tr.perm[i + 1]
           Sgn(i) == IF tr.rev[i + 1] THEN -1 ELSE 1
           m == Margin(T, tr.exact)
           \* a pair may meet at several images if fibers are longer than half a box
           once(a, b) == ~periodic \/ RMax(At(T, "l", a), At(T, "l", b)) \preceq Half(T.attrs.size)
           Img(k) == NormPair(<< New(N.c["A"][k]), New(N.c["B"][k]) >>)
           posM == [p \in PairSet(M) |-> CHOOSE k \in 1 .. M.len : << M.c["A"][k], M.c["B"][k] >> = p]
           inner == {k \in 1 .. N.len : N.c["A"][k] # N.c["B"][k]}
           images == {Img(k) : k \in inner}
           Old(i) == CHOOSE a \in 0 .. T.len - 1 : New(a) = i
       IN  UNION {
         Chk("lost connection", \A k \in inner : Img(k) \in DOMAIN posM
               \/ Connectable(T, N.c["A"][k], N.c["B"][k], periodic, m) = "maybe"),
         Chk("gained connection", \A p \in DOMAIN posM : p[1] # p[2] =>
               (p \in images \/ Connectable(T, Old(p[1]), Old(p[2]), periodic, m) = "maybe")),
         Chk("abscissas", \A k \in inner : Img(k) \in DOMAIN posM =>
               LET a == N.c["A"][k]  b == N.c["B"][k]
                   r == posM[Img(k)]
                   ea == N.c["sA"][k] \otimes tr.scale \otimes Sgn(a)
                   eb == N.c["sB"][k] \otimes tr.scale \otimes Sgn(b)
                   sa == IF M.c["A"][r] = New(a) THEN M.c["sA"][r] ELSE M.c["sB"][r]
                   sb == IF M.c["A"][r] = New(a) THEN M.c["sB"][r] ELSE M.c["sA"][r]
                   tol == Q(1, 10000000)
               IN  (Close(ea, sa, tol) /\ Close(eb, sb, tol))
                   \/ ~once(a, b)
                   \/ Nearest(T, a, b, << RInt(0), RInt(0), RInt(0) >>).det \prec Q(1, 1000000)) }
=============================================================================
