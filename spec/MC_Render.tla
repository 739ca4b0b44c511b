------------------------------ MODULE MC_Render ------------------------------
(***************************************************************************)
(* Exports as a machine.  The points of two fibers get their place in      *)
(* space, their place among the nodes, their displacements, their images   *)
(* in the neighbouring boxes, and are clipped by the box: in any order in  *)
(* which these steps make sense.  The result is the same for all orders,   *)
(* and satisfies every clause of C30 - C32, exactly.  The clauses are also *)
(* sharp: exports with a plausible mistake violate some clause.  All cases *)
(* are printed and replayed into the real library.                         *)
(***************************************************************************)
EXTENDS Pipeline, Rendering, IOUtils
CONSTANT Rich
Claim == IOEnv.CLAIM
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o SetToSeq(S \ {x})

(*------------------------------------------------------------------ cases *)
Dirs == << << RInt(1), RInt(0), RInt(0) >>, << RInt(0), RInt(1), RInt(0) >>, << Q(3, 5), Q(4, 5), RInt(0) >>,
           << Q(-4, 5), Q(3, 5), RInt(0) >>, << RInt(0), RInt(-1), RInt(0) >>, << RInt(-1), RInt(0), RInt(0) >> >>
Row(f, k) == << RInt(f[3]), Q(f[5], 2), Q(f[6], 4), Q(f[1], 2), Q(f[2], 2), RInt(k) >>
             \o Dirs[f[4]] \o << RInt(2), IF k = 1 THEN RInf ELSE RInt(50) >>
(* Fibers << 2 x, 2 y, l, direction, 2 b, 4 h >>.                          *)
Pairs0 == {<< << 0, 0, 4, d[1], 1, 3 >>, << x, 1, l, d[2], 2, 4 >> >> :
             d \in (IF Rich THEN {<< 1, 2 >>, << 1, 3 >>, << 6, 4 >>, << 3, 5 >>, << 4, 3 >>}
                    ELSE {<< 1, 2 >>, << 3, 5 >>, << 6, 4 >>}),
             x \in {1, 3}, l \in (IF Rich THEN {4, 5} ELSE {5})}
Givens == {<< FALSE, FALSE, FALSE, FALSE >>, << TRUE, FALSE, FALSE, FALSE >>, << TRUE, TRUE, FALSE, FALSE >>,
           << FALSE, FALSE, TRUE, TRUE >>, << TRUE, TRUE, TRUE, FALSE >>, << TRUE, FALSE, TRUE, TRUE >>}
Size0 == RInt(6)
SetOf(fs) == FiberTable(TLCEval([i \in DOMAIN fs |-> Row(fs[i], i)]), Size0)
Pattern == << << -2, 1, 0, 3, -1, 2 >>, << 1, -1, 2, 0, 1, -2 >>, << 0, 2, 5, -3, 4, 1 >>, << 1, 0, -2, 1, 3, -1 >> >>
Nodal(M, a, given) == IF ~given THEN "null" ELSE TLCEval([i \in 1 .. M.len |-> RInt(Pattern[a][((i - 1) % 6) + 1])])

VARIABLES fs, per, giv, M0,   \* the case
          pts,                \* points: see below
          did                 \* steps which have been made
vars == << fs, per, giv, M0, pts, did >>
T0 == M0.T
M == M0.M
DispN == Nodal(M, 1, giv[1])   RotN == Nodal(M, 2, giv[2])
ForceN == Nodal(M, 3, giv[3])  MomN == Nodal(M, 4, giv[4])

(*----------------------------------------------------------- the reference *)
(* Local points: two radii, a closed ring of eight, three layers.          *)
Ring == << << 0, 5 >>, << 3, 4 >>, << 5, 0 >>, << 4, -3 >>, << 0, -5 >>, << -3, -4 >>, << -5, 0 >>, << -4, 3 >>, << 0, 5 >> >>
NPts == 2 * 9 * 3
LocalPoint(F, q) ==
  LET r == (q - 1) % 2  j == ((q - 1) \div 2) % 9  z == << Q(-1, 2), Q(-1, 5), Q(1, 2) >>[((q - 1) \div 18) + 1]
  IN  << F.l \otimes z, F.b \otimes Q(r * Ring[j + 1][1], 10), F.h \otimes Q(r * Ring[j + 1][2], 10) >>
Frames(F) == << Direction(F), << RNeg(F.v), F.u, RInt(0) >>, << RInt(0), RInt(0), RInt(1) >> >>
InSpace(F, p) == LET e == Frames(F) IN
  Add3(Center(F), Add3(Scale3(p[1], e[1]), Add3(Scale3(p[2], e[2]), Scale3(p[3], e[3]))))
(* Place among the nodes of fiber i.                                       *)
NodeAt(i, x) ==
  LET on == {k \in 0 .. M.len - 2 : At(M, "fiber", k) = i /\ At(M, "fiber", k + 1) = i
               /\ At(M, "s", k) \preceq x /\ x \preceq At(M, "s", k + 1) /\ At(M, "s", k) \prec At(M, "s", k + 1)}
      k == CHOOSE k \in on : \A m \in on : k <= m
  IN  k \oplus ((x \ominus At(M, "s", k)) \oslash (At(M, "s", k + 1) \ominus At(M, "s", k)))
ZerosM == [i \in 1 .. M.len |-> RInt(0)]
Or0(v) == IF IsNull(v) THEN ZerosM ELSE v
CubicAt(v, s, j) == Cubic(v, Or0(s), Floor0(j, M))
Part(j) == j \ominus Floor0(j, M)

(* A point: fiber i, number q, local coordinates L, and once known its     *)
(* position X and place j, its shift s (in boxes).                         *)
Start0(T) == TLCEval([p \in 1 .. T.len * NPts |->
   LET i == (p - 1) \div NPts  q == ((p - 1) % NPts) + 1 IN
   [i |-> i, q |-> p, L |-> LocalPoint(Fib(T, i), q), X |-> "null", j |-> "null", s |-> << 0, 0 >>]])
Put(P) == TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.X = InSpace(Fib(T0, P[p].i), P[p].L)]])
Find(P) == TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.j = NodeAt(P[p].i, P[p].L[1])]])
Move(P) == TLCEval([p \in DOMAIN P |->
   [P[p] EXCEPT !.X = Add3(@, << 0, 0, Val(CubicAt(DispN, RotN, P[p].j), Part(P[p].j)) >>)]])
Shifts9 == << << 0, 0 >>, << -1, 0 >>, << 1, 0 >>, << 0, -1 >>, << 0, 1 >>, << -1, -1 >>, << -1, 1 >>, << 1, -1 >>, << 1, 1 >> >>
Copies(P, S) == TLCEval([p \in 1 .. Len(S) * Len(P) |->
   LET a == P[((p - 1) % Len(P)) + 1]  s == S[((p - 1) \div Len(P)) + 1] IN
   [a EXCEPT !.s = s, !.X = Add3(@, << RMul(s[1], Size0), RMul(s[2], Size0), RInt(0) >>)]])
Cut(P, X) == TLCEval(SelectSeq(P, LAMBDA p : \A a \in 1 .. 2 : RAbs(p.X[a]) \preceq X))

Init == /\ fs \in Pairs0 /\ giv \in Givens /\ per \in BOOLEAN
        /\ (Claim = "C30" => giv = << FALSE, FALSE, FALSE, FALSE >> /\ ~per)
        /\ (Claim = "C31" => ~per) /\ (Claim = "C32" => per /\ (giv[1] = giv[4] \/ Rich))
        /\ M0 = TLCEval(LET T == SetOf(fs)  N == NetOf(T, per)  T1 == TLCEval(Settled(T, N))
                        IN  [T |-> T1, M |-> MeshOf(StackOf(T1, N, "null"))])
        /\ pts = TLCEval(Start0(SetOf(fs))) /\ did = {}
Step(name, needs, what) == name \notin did /\ needs \subseteq did /\ did' = did \cup {name} /\ pts' = what
                           /\ UNCHANGED << fs, per, giv, M0 >>
Wanted == {"put"} \cup (IF Claim = "C30" THEN {} ELSE {"find"})
          \cup (IF giv[1] THEN {"move"} ELSE {}) \cup (IF per THEN {"copy", "cut"} ELSE {})
Next == \/ Step("put", {}, Put(pts))
        \/ "find" \in Wanted /\ Step("find", {}, Find(pts))
        \/ "move" \in Wanted /\ Step("move", {"put", "find"}, Move(pts))
        \/ per /\ Step("copy", {"put"}, Copies(pts, Shifts9))
        \/ per /\ Step("cut", {"put", "copy"}, Cut(pts, Size0))

(*-------------------------------------------------------------- the export *)
Col3(P, v(_)) == TLCEval([p \in DOMAIN P |-> v(P[p])])
Shape(P) ==
  LET F(p) == Fib(T0, p.i)
      node == "find" \in did
      f0 == [fiber |-> Col3(P, LAMBDA p : p.i),
             lbh |-> Col3(P, LAMBDA p : << F(p).l, F(p).b, F(p).h >>),
             xyz |-> Col3(P, LAMBDA p : p.L),
             uvw |-> Col3(P, LAMBDA p : Direction(F(p))),
             G |-> Col3(P, LAMBDA p : F(p).G), E |-> Col3(P, LAMBDA p : F(p).E)]
      f1 == IF node THEN [k \in {"node"} |-> Col3(P, LAMBDA p : p.j)] ELSE << >>
      c(p) == CubicAt(DispN, RotN, p.j)
      f2 == IF giv[1] THEN [displacement |-> Col3(P, LAMBDA p : << RInt(0), RInt(0), Val(c(p), Part(p.j)) >>),
                            rotation |-> Col3(P, LAMBDA p : Der1(c(p), Part(p.j))),
                            curvature |-> Col3(P, LAMBDA p : Der2(c(p), Part(p.j)))] ELSE << >>
      f3 == IF giv[3] THEN [k \in {"force"} |-> Col3(P, LAMBDA p : Val(CubicAt(ForceN, MomN, p.j), Part(p.j)))]
            ELSE << >>
      f == f0 @@ f1 @@ f2 @@ f3
  IN  [P |-> Col3(P, LAMBDA p : p.X), dims |-> "null", names |-> SetToSeq(DOMAIN f), f |-> f]

(* The same points with a mistake.                                         *)
Twist(P, g(_, _)) == TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.X = g(P[p], Fib(T0, P[p].i))]])
Back(a, F) == Sub3(a.X, Center(F))
WrongPoints(P) ==
  CASE Claim = "C30" -> {
         Twist(P, LAMBDA a, F : InSpace(F, << a.L[1], RNeg(a.L[2]), a.L[3] >>)),
         Twist(P, LAMBDA a, F : InSpace(F, << a.L[1], a.L[3], a.L[2] >>)),
         Twist(P, LAMBDA a, F : InSpace(F, << RNeg(a.L[1]), RNeg(a.L[2]), a.L[3] >>)),
         Twist(P, LAMBDA a, F : Add3(a.X, << 0, 0, Half(F.h) >>)),
         Twist(P, LAMBDA a, F : InSpace(F, << a.L[1] \otimes Q(9, 10), a.L[2], a.L[3] >>)),
         Twist(P, LAMBDA a, F : InSpace(F, << a.L[1], a.L[2] \otimes 2, a.L[3] >>)),
         Twist(P, LAMBDA a, F : Add3(Center(F), Back(a, Fib(T0, 1 - a.i)))),
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.i = 1 - @]]),
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.L = << @[1] \otimes Q(9, 10), @[2], @[3] >>]]),
         SubSeq(P, 1, NPts), P \o SubSeq(P, 1, NPts), SubSeq(P, 2, Len(P)) }
    [] Claim = "C31" -> {
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.j = @ \oplus 1]]),
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.j = RSub(M.len - 1, @)]]),
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.j = RInt(RFloor(@ \oplus Q(1, 2)))]]),
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.X = << @[1], @[2], @[3] \oplus Q(1, 100) >>]]),
         TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.X = << @[1] \oplus Q(1, 100), @[2], @[3] >>]]),
         SubSeq(P, 1, NPts), SubSeq(P, 2, Len(P)) }
       \cup (IF giv[1] THEN {Move(P), TLCEval([p \in DOMAIN P |-> [P[p] EXCEPT !.X = Put(P)[p].X]])} ELSE {})
    [] OTHER -> {}
Source == LET P == Put(Find(Start0(T0))) IN IF giv[1] THEN Move(P) ELSE P
WrongCuts ==
  IF Claim # "C32" THEN {}
  ELSE LET Q9 == [k \in 1 .. 4 |-> Cut(Copies(Source, SubSeq(Shifts9, 1, 4 + k)), Size0)] IN
       {Q9[k] : k \in {k \in 1 .. 4 : Len(Q9[k]) < Len(pts)}}
       \cup {Copies(Source, Shifts9), Cut(Copies(Source, Shifts9), Half(Size0)), Source \o Source, Source,
             Cut(Copies(Source, Shifts9), Size0 \otimes Q(9, 10)),
             TLCEval([p \in DOMAIN pts |-> [pts[p] EXCEPT !.i = 1 - @]]),
             TLCEval([p \in DOMAIN pts |-> [pts[p] EXCEPT !.X = << @[1], @[2], @[3] \oplus Q(1, 100) >>]]),
             TLCEval([p \in DOMAIN pts |-> IF pts[p].s = << 0, 0 >> THEN pts[p]
                                           ELSE [pts[p] EXCEPT !.X = << @[1], @[2], @[3] \oplus Q(1, 100) >>]]) }
(* Fields with a mistake.                                                  *)
WrongFields(g) ==
  IF Claim # "C31" THEN {}
  ELSE LET n == DOMAIN g.P
           line(v, p) == LET k == Floor0(pts[p].j, M)  r == Part(pts[p].j)
                         IN  (v[k + 1] \otimes RSub(1, r)) \oplus (v[k + 2] \otimes r)
           near(v, p) == v[Floor0(pts[p].j, M) + 1]
       IN (IF giv[1] THEN {[g.f EXCEPT !.displacement = TLCEval([p \in n |-> << RInt(0), RInt(0), line(DispN, p) >>])],
                           [g.f EXCEPT !.displacement = TLCEval([p \in n |-> << RInt(0), RInt(0), near(DispN, p) >>])],
                           [g.f EXCEPT !.rotation = g.f.curvature], [g.f EXCEPT !.curvature = g.f.rotation],
                           [g.f EXCEPT !.rotation = TLCEval([p \in n |-> near(Or0(RotN), p)])]} ELSE {})
          \cup (IF giv[3] THEN {[g.f EXCEPT !.force = TLCEval([p \in n |-> line(ForceN, p)])],
                                [g.f EXCEPT !.force = TLCEval([p \in n |-> near(ForceN, p)])]} ELSE {})

Clauses(P, g) ==
  CASE Claim = "C30" -> ExportedMat(T0, g, NPts)
    [] Claim = "C31" -> ExportedMesh(T0, M, [g |-> g, g0 |-> Shape(Put(Find(Start0(T0)))), np |-> NPts,
                                             disp |-> DispN, rot |-> RotN, force |-> ForceN, mom |-> MomN])
    [] OTHER -> PeriodicExport(T0, [g |-> g, b |-> Shape(Source), cells |-> 2,
                  hits |-> TLCEval([p \in DOMAIN P |-> << P[p].q, P[p].s[1], P[p].s[2], p >>]),
                  img |-> TLCEval([p \in DOMAIN P |-> << P[p].q, P[p].s[1], P[p].s[2] >>])])
Done == did = Wanted
Final == Done => Clauses(pts, Shape(pts)) = {}
(* All orders come to the same end.                                        *)
Reference ==
  LET P == IF Claim = "C30" THEN Put(Start0(T0)) ELSE Source
  IN  IF per THEN Cut(Copies(P, Shifts9), Size0) ELSE P
Confluent == Done => Shape(pts) = Shape(Reference)
Sharp == Done => /\ \A P \in WrongPoints(pts) \cup WrongCuts : Clauses(P, Shape(P)) # {}
                 /\ LET g == Shape(pts) IN
                    \A f \in WrongFields(g) : f = g.f \/ Clauses(pts, [g EXCEPT !.f = f]) # {}
Emit == Done => PrintT("CASE " \o ToString(<< fs, per, giv >>))
=============================================================================
