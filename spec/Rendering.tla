----------------------------- MODULE Rendering -----------------------------
(***************************************************************************)
(* Exported shapes.  An export g has the points P (in space), and, if the  *)
(* fibers are labelled, for every point the fields of g.f: fiber (label),  *)
(* lbh, xyz (local coordinates), uvw, G, E, ...                            *)
(***************************************************************************)
EXTENDS Sampling

ShapeTol == Q(1, 100000)
Near3(a, b, scale) == \A i \in 1 .. 3 : RAbs(a[i] \ominus b[i]) \preceq (ShapeTol \otimes (1 \oplus scale))
Size(F) == RMax(F.l, RMax(F.b, F.h)) \oplus RAbs(F.x) \oplus RAbs(F.y) \oplus RAbs(F.z)
Center(F) == << F.x, F.y, F.z >>
Dist2of(p, q) == LET d == Sub3(p, q) IN Dot3(d, d)
InPlane(F) == REq(F.w, 0)

(* The local coordinates p of a point of fiber F are in the cylinder.      *)
InCylinder(F, p) ==
  /\ RAbs(p[1]) \preceq (Half(F.l) \otimes (1 \oplus ShapeTol))
  /\ (RSq((2 \otimes p[2]) \oslash F.b) \oplus RSq((2 \otimes p[3]) \oslash F.h)) \preceq (1 \oplus ShapeTol)

(* Positions X and local coordinates L of points of fiber F are related by *)
(* a motion which puts local x along the fiber.                            *)
Direction(F) == << F.u, F.v, F.w >>
Triple(a, b, c) == Dot3(a, << (b[2] \otimes c[3]) \ominus (b[3] \otimes c[2]),
                              (b[3] \otimes c[1]) \ominus (b[1] \otimes c[3]),
                              (b[1] \otimes c[2]) \ominus (b[2] \otimes c[1]) >>)
Volume(X, k, o, m) == Triple(Sub3(X[k + o[1]], X[k]), Sub3(X[k + o[2]], X[k]), Sub3(X[k + m], X[k]))
Moved(F, X, L) ==
  LET n == Len(X)  sc == Size(F)  t2 == ShapeTol \otimes (1 \oplus RSq(sc)) IN UNION {
    Chk("center", \A k \in 1 .. n :
          RAbs(Dist2of(X[k], Center(F)) \ominus Dot3(L[k], L[k])) \preceq t2),
    Chk("axis", \A k \in 1 .. n :
          RAbs(Dot3(Sub3(X[k], Center(F)), Direction(F)) \ominus L[k][1]) \preceq (ShapeTol \otimes (1 \oplus sc))),
    Chk("rigid motion", \A k \in 1 .. n : \A d \in {1, 2, 5, 11} :
          k + d <= n =>
            RAbs(Dist2of(X[k], X[k + d]) \ominus Dist2of(L[k], L[k + d])) \preceq t2),
    (* (a reflection is not a motion)                                      *)
    Chk("orientation", \A k \in 1 .. (IF n < 12 THEN n ELSE 12) : \A o \in {<< 2, 4 >>, << 2, 6 >>, << 4, 8 >>} :
          (n >= 20 /\ k + (n \div 2) <= n /\ k + o[2] <= n) =>
            LET v == Volume(L, k, o, n \div 2) IN
            (((F.l \otimes F.b) \otimes F.h) \oslash 20) \preceq RAbs(v) =>
              RAbs(Volume(X, k, o, n \div 2) \ominus v) \preceq (RAbs(v) \oslash 4)),
    Chk("upright thickness", InPlane(F) => \A k \in 1 .. n :
          RAbs(RAbs(X[k][3] \ominus F.z) \ominus RAbs(L[k][3])) \preceq (ShapeTol \otimes (1 \oplus sc))) }
Extent(F, L) ==
  LET n == Len(L)
      Rel(k) == RSq((2 \otimes L[k][2]) \oslash F.b) \oplus RSq((2 \otimes L[k][3]) \oslash F.h)
      le == Q(1, 10000)
  IN UNION {
    Chk("in the cylinder", \A k \in 1 .. n : InCylinder(F, L[k])),
    Chk("reaches both ends", /\ \E k \in 1 .. n : RAbs(L[k][1] \ominus Half(F.l)) \preceq (le \otimes F.l)
                             /\ \E k \in 1 .. n : RAbs(L[k][1] \oplus Half(F.l)) \preceq (le \otimes F.l)),
    Chk("reaches the surface", \A s \in {-1, 1} : \A a \in {2, 3} :
          \E k \in 1 .. n : /\ Q(99, 100) \prec Rel(k)
                            /\ Q(1, 3) \prec ((s \otimes (2 \otimes L[k][a])) \oslash (IF a = 2 THEN F.b ELSE F.h))) }

ConstField(s, v) == \A k \in DOMAIN s : Close(s[k], v, E9)
Tagged(F, label, g, K) ==
  UNION {
    Chk("field fiber", \A k \in K : g.f.fiber[k] = label),
    Chk("field lbh", \A k \in K : /\ Close(g.f.lbh[k][1], F.l, E9) /\ Close(g.f.lbh[k][2], F.b, E9)
                                  /\ Close(g.f.lbh[k][3], F.h, E9)),
    Chk("field uvw", \A k \in K : \A a \in 1 .. 3 : Close(g.f.uvw[k][a], Direction(F)[a], E9)),
    Chk("field G", \A k \in K : Close(g.f.G[k], F.G, E9)),
    Chk("field E", \A k \in K : Close(g.f.E[k], F.E, E9)) }
TagNames == {"fiber", "lbh", "xyz", "uvw", "G", "E"}

(* Without local coordinates: the same facts from the positions alone.     *)
Bare(F, X) ==
  LET n == Len(X)  sc == Size(F)
      S(k) == Dot3(Sub3(X[k], Center(F)), Direction(F))
      t == ShapeTol \otimes (1 \oplus sc)
      Across(k) == Sub3(Sub3(X[k], Center(F)), Scale3(S(k), Direction(F)))
      Side(k) == (Across(k)[2] \otimes F.u) \ominus (Across(k)[1] \otimes F.v)
  IN UNION {
    Chk("length", \A k \in 1 .. n : RAbs(S(k)) \preceq (Half(F.l) \oplus t)),
    Chk("reaches both ends", /\ \E k \in 1 .. n : (Half(F.l) \ominus t) \preceq S(k)
                             /\ \E k \in 1 .. n : S(k) \preceq (RNeg(Half(F.l)) \oplus t)),
    Chk("cross-section", InPlane(F) => \A k \in 1 .. n :
          (RSq(Side(k) \oslash Half(F.b)) \oplus RSq(Across(k)[3] \oslash Half(F.h)))
             \preceq (1 \oplus Q(1, 1000))),
    Chk("width and thickness", InPlane(F) => 
          /\ \E k \in 1 .. n : (Half(F.b) \otimes Q(1, 3)) \prec RAbs(Side(k))
          /\ \E k \in 1 .. n : (Half(F.h) \otimes Q(1, 3)) \prec RAbs(Across(k)[3])) }

(* C30 : one fiber.  e: F, res, label ("null" for none), g.                *)
ExportedFiber(e) ==
  LET g == e.g  n == Len(g.P)
      labelled == ~IsNull(e.label)
  IN UNION {
    Chk("number of points", n = (e.res.r + 1) * (e.res.theta + 1) * e.res.z),
    Chk("dimensions", g.dims = << e.res.r + 1, e.res.theta + 1, e.res.z >>),
    Chk("fields", IF labelled THEN TagNames \subseteq Range(g.names) ELSE Len(g.names) = 0),
    IF labelled /\ TagNames \subseteq Range(g.names)
    THEN Tagged(e.F, e.label, g, 1 .. n) \cup Moved(e.F, g.P, g.f.xyz)
         \cup (IF e.res.theta >= 4 THEN Extent(e.F, g.f.xyz)
               ELSE Chk("in the cylinder", \A k \in 1 .. n : InCylinder(e.F, g.f.xyz[k])))
    ELSE IF e.res.theta >= 4 THEN Bare(e.F, g.P) ELSE {} }

PointsOf(g, label) == SelectSeq([k \in 1 .. Len(g.P) |-> k], LAMBDA k : g.f.fiber[k] = label)
Pick(s, K) == TLCEval([i \in DOMAIN K |-> s[K[i]]])
(* C30 : a fiber set T with np points per fiber.                           *)
ExportedMat(T, g, np) ==
  IF T.len = 0 THEN Chk("empty", Len(g.P) = 0)
  ELSE IF ~(TagNames \subseteq Range(g.names)) THEN {"fields"}
  ELSE UNION {
    Chk("number of points", Len(g.P) = T.len * np),
    Chk("labels", Range(g.f.fiber) = 0 .. T.len - 1),
    UNION {LET K == TLCEval(PointsOf(g, i))
               F == Fib(T, i)
           IN  Chk("points of a fiber", Len(K) = np)
               \cup Tagged(F, i, g, Range(K))
               \cup Moved(F, Pick(g.P, K), Pick(g.f.xyz, K))
               \cup Extent(F, Pick(g.f.xyz, K)) : i \in 0 .. T.len - 1} }

(*-------------------------------------------------------- exported meshes *)
(* Cubic Hermite interpolation between two nodes one unit apart.           *)
HermiteP(v0, s0, v1, s1) ==   \* coefficients of 1, r, r^2, r^3
  << v0, s0, ((3 \otimes v1) \ominus (3 \otimes v0)) \ominus ((2 \otimes s0) \oplus s1),
     ((2 \otimes v0) \ominus (2 \otimes v1)) \oplus (s0 \oplus s1) >>
Val(c, r)  == c[1] \oplus (r \otimes (c[2] \oplus (r \otimes (c[3] \oplus (r \otimes c[4])))))
Der1(c, r) == c[2] \oplus (r \otimes ((2 \otimes c[3]) \oplus (r \otimes (3 \otimes c[4]))))
Der2(c, r) == (2 \otimes c[3]) \oplus (r \otimes (6 \otimes c[4]))
(* Abscissa at a fractional node label j of mesh M.                        *)
Floor0(j, M) == LET f == RFloor(j) IN IF f >= M.len - 1 THEN M.len - 2 ELSE IF f < 0 THEN 0 ELSE f
AbscissaAt(M, j) ==
  LET k == Floor0(j, M)  r == j \ominus k
  IN  (At(M, "s", k) \otimes RSub(1, r)) \oplus (At(M, "s", k + 1) \otimes r)
OnFiber(M, j, label) ==
  LET k == Floor0(j, M)  r == j \ominus k
  IN  /\ RNeg(E9) \preceq j /\ j \preceq ((M.len - 1) \oplus E9)
      /\ IF r \prec E6 THEN At(M, "fiber", k) = label
         ELSE IF RSub(1, E6) \prec r THEN At(M, "fiber", k + 1) = label
         ELSE At(M, "fiber", k) = label /\ At(M, "fiber", k + 1) = label
Cubic(vals, slopes, k) == HermiteP(vals[k + 1], slopes[k + 1], vals[k + 2], slopes[k + 2])
ScaleOf(s) == 1 \oplus RMax(0, RMaxSeq([i \in DOMAIN s |-> RAbs(s[i])]))

(* C31.  e: fields disp, rot, force, mom ("null" if not given), g the      *)
(* export and g0 the export of the same mesh without fields, np the number *)
(* of points of a fiber.                                                   *)
ExportedMesh(T, M, e) ==
  LET g == e.g  g0 == e.g0  n == Len(g.P)
      hasD == ~IsNull(e.disp)  hasF == ~IsNull(e.force)
      zeros == [i \in 1 .. M.len |-> RInt(0)]
      rot == IF IsNull(e.rot) THEN zeros ELSE e.rot
      mom == IF IsNull(e.mom) THEN zeros ELSE e.mom
      J(k) == g.f.node[k]
      R(k) == J(k) \ominus Floor0(J(k), M)
      dsc == IF hasD THEN ScaleOf(e.disp) \oplus ScaleOf(rot) ELSE RInt(1)
      fsc == IF hasF THEN ScaleOf(e.force) \oplus ScaleOf(mom) ELSE RInt(1)
      Knot(k) == R(k) \prec E6 \/ RSub(1, E6) \prec R(k)
      tol == Q(1, 10000000)
  IN IF T.len = 0 THEN Chk("empty", n = 0)
     ELSE IF ~(TagNames \cup {"node"} \subseteq Range(g.names)) THEN {"fields"}
     ELSE UNION {
    Chk("number of points", n = T.len * e.np),
    Chk("same points", Len(g0.P) = n /\ Len(g0.f.node) = n),
    IF Len(g0.P) # n THEN {}
    ELSE UNION {LET K == TLCEval(PointsOf(g, i))
                    F == Fib(T, i)
                IN  Chk("points of a fiber", Len(K) = e.np)
                    \cup Tagged(F, i, g, Range(K))
                    \cup Moved(F, Pick(g0.P, K), Pick(g.f.xyz, K)) : i \in 0 .. T.len - 1},
    Chk("place on the fiber", \A k \in 1 .. n : OnFiber(M, J(k), g.f.fiber[k])),
    Chk("place between nodes", \A k \in 1 .. n : OnFiber(M, J(k), g.f.fiber[k]) =>
          RAbs(AbscissaAt(M, J(k)) \ominus g.f.xyz[k][1])
            \preceq (Q(1, 10000) \otimes At(T, "l", g.f.fiber[k]))),
    Chk("place depends on fields", Len(g0.P) = n => \A k \in 1 .. n : Close(g0.f.node[k], J(k), E9)),
    Chk("displacement field missing", hasD <=> ("displacement" \in Range(g.names))),
    Chk("force field missing", hasF <=> ("force" \in Range(g.names))),
    IF ~hasD \/ "displacement" \notin Range(g.names)
    THEN Chk("moved without field", Len(g0.P) = n => \A k \in 1 .. n : Near3(g.P[k], g0.P[k], T.attrs.size))
    ELSE UNION {
      Chk("displacement", \A k \in 1 .. n :
            LET c == Cubic(e.disp, rot, Floor0(J(k), M)) IN
            /\ REq(g.f.displacement[k][1], 0) /\ REq(g.f.displacement[k][2], 0)
            /\ RAbs(g.f.displacement[k][3] \ominus Val(c, R(k))) \preceq (tol \otimes dsc)),
      Chk("rotation", \A k \in 1 .. n : Knot(k) \/
            LET c == Cubic(e.disp, rot, Floor0(J(k), M)) IN
            RAbs(g.f.rotation[k] \ominus Der1(c, R(k))) \preceq (tol \otimes dsc)),
      Chk("curvature", \A k \in 1 .. n : Knot(k) \/
            LET c == Cubic(e.disp, rot, Floor0(J(k), M)) IN
            RAbs(g.f.curvature[k] \ominus Der2(c, R(k))) \preceq ((tol \otimes 10) \otimes dsc)),
      Chk("moved by the displacement", Len(g0.P) = n => \A k \in 1 .. n :
            Near3(g.P[k], Add3(g0.P[k], << 0, 0, g.f.displacement[k][3] >>), T.attrs.size \oplus dsc)) },
    IF ~hasF \/ "force" \notin Range(g.names) THEN {}
    ELSE Chk("force", \A k \in 1 .. n :
            LET c == Cubic(e.force, mom, Floor0(J(k), M)) IN
            RAbs(g.f.force[k] \ominus Val(c, R(k))) \preceq (tol \otimes fsc)) }

(* C32.  g: the export; b: the export of the same mesh declared not        *)
(* periodic (the points of every fiber once).  X: box size.  The points    *)
(* are sorted by the driver; cell: map from rounded position to points.    *)
Inside(p, X, m) == \A a \in 1 .. 2 : RAbs(p[a]) \preceq (X \oplus m)
(* Cells which are cut get new points; they are no longer than a cell (a   *)
(* fiber has q cells along it).                                            *)
CellSize(d, q) == ((d[1] \oslash q) \oplus (d[2] \oplus d[3])) \otimes Q(101, 100)
(* Cells at the very top or bottom may be cut by the box, too.             *)
Extreme(b) ==
  LET zs == [k \in DOMAIN b.P |-> b.P[k][3]]
      hi == RMaxSeq(zs)  lo == RMinSeq(zs)
  IN  {b.f.fiber[k] : k \in {k \in DOMAIN b.P : Close(zs[k], hi, E6) \/ Close(zs[k], lo, E6)}}
NearCut(p, X, d, q) == \E a \in 1 .. 2 : RAbs(RAbs(p[a]) \ominus X) \preceq CellSize(d, q)
ImageShifts(X) == {<< RMul(a, X), RMul(b, X), RInt(0) >> : a \in -1 .. 1, b \in -1 .. 1}
(* The driver pairs points: img[q] = << k, a, b >> claims that point q of  *)
(* the export is point k of b shifted by (a, b) boxes; hit lists, for the  *)
(* images in the box, the point of the export.                             *)
SameFields(g, q, b, k) ==
  /\ g.f.fiber[q] = b.f.fiber[k]
  /\ Close(g.f.node[q], b.f.node[k], E6)
  /\ \A v \in Range(b.names) \cap {"rotation", "curvature", "force", "G"} :
        Close(g.f[v][q], b.f[v][k], ShapeTol)
  /\ \A v \in Range(b.names) \cap {"lbh", "uvw", "xyz", "displacement"} : \A a \in 1 .. 3 :
        Close(g.f[v][q][a], b.f[v][k][a], ShapeTol)
PeriodicExport(T, e) ==
  LET g == e.g  b == e.b  X == T.attrs.size  n == Len(g.P)
      m == ShapeTol \otimes (1 \oplus X)
      Image(k, s) == Add3(b.P[k], << RMul(s[1], X), RMul(s[2], X), RInt(0) >>)
      hits == {<< h[1], h[2], h[3] >> : h \in Range(e.hits)}
      extreme == TLCEval(Extreme(b))
  IN IF T.len = 0 THEN Chk("empty", n = 0)
     ELSE UNION {
    Chk("outside of two boxes", \A q \in 1 .. n : Inside(g.P[q], X, m)),
    Chk("fields", Range(b.names) \subseteq Range(g.names)),
    (* every image inside the box is there, with its fields                *)
    Chk("missing image", \A k \in DOMAIN b.P : \A s \in (-1 .. 1) \X (-1 .. 1) :
          LET p == Image(k, s) IN
          (Inside(p, X, RNeg(m))) => << k, s[1], s[2] >> \in hits),
    Chk("image", \A h \in Range(e.hits) :
          /\ h[4] \in 1 .. n /\ h[1] \in DOMAIN b.P
          /\ Near3(g.P[h[4]], Image(h[1], << h[2], h[3] >>), X)),
    (* every point of the export is an image or comes from a cut cell      *)
    Chk("point of no image", \A q \in 1 .. n : 
          ~IsNull(e.img[q]) \/ NearCut(g.P[q], X, g.f.lbh[q], e.cells) \/ g.f.fiber[q] \in extreme),
    Chk("image of a point", \A q \in 1 .. n : ~IsNull(e.img[q]) =>
          Near3(g.P[q], Image(e.img[q][1], << e.img[q][2], e.img[q][3] >>), X)
          /\ SameFields(g, q, b, e.img[q][1])) }
(* Not periodic: every fiber once and nothing is cut.                      *)
UnclippedExport(T, e) ==
  LET g == e.g IN
  IF T.len = 0 THEN Chk("empty", Len(g.P) = 0)
  ELSE IF "fiber" \notin Range(g.names) THEN {"fields"}
  ELSE UNION {
    Chk("number of points", Len(g.P) = T.len * e.np),
    Chk("every fiber once", \A i \in 0 .. T.len - 1 : Len(PointsOf(g, i)) = e.np) }
=============================================================================
