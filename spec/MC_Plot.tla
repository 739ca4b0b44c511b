------------------------------- MODULE MC_Plot ------------------------------
(***************************************************************************)
(* The drawing of a system (C37) as a machine: two connected fibers are    *)
(* displaced, some conditions of contact are met with equality, and the    *)
(* rows of the permuted system are drawn one by one, each nonzero place as *)
(* a mark of the category of its row or column.  The finished drawing has  *)
(* every nonzero place of the symmetric system exactly once, is symmetric, *)
(* and is the one that module Packing wants; other unknowns first only     *)
(* move the marks.  Drawings with one fault are refused.                   *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils, SequencesExt
CONSTANTS Rich
pi4 == Q(11, 14)

VARIABLES con, closed, open, perm, \* the system
          sys,                     \* its matrices
          row, marks               \* rows drawn so far, marks
vars == << con, closed, open, perm, sys, row, marks >>

Kinds == {"stiffness", "inner", "lower", "upper", "inactive"}
T == FiberTable(TLCEval([i \in 1 .. 2 |->
       << RInt(4), RInt(1), RInt(1), RInt(0), RInt(0), RInt(3 * i), RInt(1), RInt(0), RInt(0), RInt(2), RInt(60) >>]), RInt(40))
RowAt(a, b, s, t) ==
  << a, b, s, t, RInt(a) \oplus s, RInt(a), RInt(3 * (a + 1)), RInt(b) \oplus t, RInt(b), RInt(3 * (b + 1)) >>
Net0(c) == RowTable(TLCEval(<< RowAt(0, 0, RInt(2), RInt(-2)), RowAt(1, 1, RInt(2), RInt(-2)) >> \o
                       [k \in DOMAIN c |-> RowAt(0, 1, Q(c[k][1], 2), Q(c[k][2], 2))]),
               NetCols, {"A", "B"}, [n |-> 2, size |-> RInt(40), periodic |-> FALSE], "Net")
Opt == [lmin |-> "null", lmax |-> "null", coupling |-> Q(99, 100)]

Connections == {<< >>, << << 1, -3 >> >>} \cup (IF Rich THEN {<< << -1, 1 >>, << 2, 3 >> >>, << << 0, 0 >> >>} ELSE {})
(* Conditions in contact; the gap of the others: 1, none (infinite), or    *)
(* negative.                                                               *)
Patterns(m) ==
  {{}, 1 .. m, {r \in 1 .. m : r % 3 = 1}, {r \in 1 .. m : r % 3 = 0}, {r \in 1 .. m : r % 2 = 0}, {r \in 1 .. m : r % 5 < 3}}
  \cup {{r} : r \in IF Rich THEN 1 .. m ELSE {1, m}}
Opens == {"one", "infinite", "negative", "mixed"}
Gap0(k, r) == CASE k = "one" -> RInt(1) [] k = "infinite" -> RInf [] k = "negative" -> RInt(-1)
                [] OTHER -> << RInt(-1), RInf, Q(1, 100) >>[(r % 3) + 1]
Perms == {"none", "same", "reverse", "contacts first", "odd"}
Order(p, n, m) ==
  LET N == n + m IN
  CASE p = "none"           -> "null"
    [] p = "same"           -> [a \in 1 .. N |-> a - 1]
    [] p = "reverse"        -> [a \in 1 .. N |-> N - a]
    [] p = "contacts first" -> [a \in 1 .. N |-> IF a <= m THEN n + a - 1 ELSE a - m - 1]
    [] p = "odd"            -> [a \in 1 .. N |-> IF a <= N \div 2 THEN 2 * a - 1 ELSE 2 * (a - (N \div 2)) - 2]

Made(c) ==
  LET t == TLCEval(T)  M == TLCEval(MeshOf(Net0(c)))
      K == StiffnessOf(t, M, Opt, pi4)
      C == ConstraintOf(t, M)
      u == TLCEval([i \in 1 .. 2 * M.len |-> RInt(((i * i) % 5) - 2)])
  IN  [K |-> [K EXCEPT !.u = u], C |-> C, n |-> 2 * M.len, m |-> Len(C.f),
       cu |-> TLCEval(SpMul(Len(C.f), C.row, C.col, C.val, u)),
       (* nonzero places of the whole, from 0 *)
       P |-> LET km == SpMap(K.row, K.col, K.val)  cm == SpMap(C.row, C.col, C.val)  n == 2 * M.len IN
             TLCEval({p \in DOMAIN km : ~REq(km[p], 0)} \cup
                     UNION {{<< n + p[1], p[2] >>, << p[2], n + p[1] >>} : p \in {p \in DOMAIN cm : ~REq(cm[p], 0)}})]
Systems == TLCEval([c \in Connections |-> TLCEval(Made(c))])

Init == /\ con \in Connections
        /\ sys = Systems[con]
        /\ closed \in Patterns(sys.m)
        /\ open \in Opens
        /\ perm \in Perms
        /\ row = 0
        /\ marks = [k \in Kinds |-> {}]
n == sys.n
m == sys.m
N == n + m
At1(p) == IF perm = "none" THEN p ELSE Order(perm, n, m)[p + 1]
(* The category of a place of the whole (not permuted).                    *)
Category(i, j) ==
  IF i < n /\ j < n THEN "stiffness"
  ELSE LET r == (IF i < n THEN j ELSE i) - n + 1 IN
       IF r \notin closed THEN "inactive"
       ELSE << "upper", "lower", "inner" >>[(r % 3) + 1]
Draw ==
  /\ row < N
  /\ row' = row + 1
  /\ LET i == At1(row)  here == {b \in 0 .. N - 1 : << i, At1(b) >> \in sys.P} IN
     marks' = TLCEval([k \in Kinds |-> marks[k] \cup {<< row, b >> : b \in {b \in here : Category(i, At1(b)) = k}}])
  /\ UNCHANGED << con, closed, open, perm, sys >>
Next == Draw
Spec == Init /\ [][Next]_vars

Done == row = N
System0 == [K |-> sys.K,
            C |-> [sys.C EXCEPT !.H = TLCEval([r \in 1 .. m |-> IF r \in closed THEN sys.cu[r]
                     ELSE LET g == Gap0(open, r) IN IF IsFin(g) THEN sys.cu[r] \oplus g ELSE g])]]
Ordered(S) == SetToSeq(S)
Drawing(mk, p) == [perm |-> Order(p, n, m), marks |-> [k \in Kinds |-> Ordered(mk[k])], sameAxes |-> TRUE,
                   err |-> RInt(0), small |-> TRUE]
Law(mk, p) == PlotLaw(System0.K, System0.C, Drawing(mk, p))

Wanted == Done => Law(marks, perm) = {}
(* Every nonzero place once, and nothing else; the drawing is symmetric.   *)
Whole ==
  Done => /\ \A k, l \in Kinds : k # l => marks[k] \cap marks[l] = {}
          /\ UNION {marks[k] : k \in Kinds} = {<< a, b >> \in (0 .. N - 1) \X (0 .. N - 1) : << At1(a), At1(b) >> \in sys.P}
          /\ \A k \in Kinds : \A q \in marks[k] : << q[2], q[1] >> \in marks[k]
(* Each single fault is noticed.                                           *)
Sharp ==
  Done =>
    LET drop(k, q) == [marks EXCEPT ![k] = @ \ {q}]
        move(k, l, q) == [marks EXCEPT ![k] = @ \ {q}, ![l] = @ \cup {q}]
        some(k) == IF marks[k] = {} THEN {} ELSE LET q == CHOOSE q \in marks[k] : TRUE IN {q, << q[2], q[1] >>}
    IN  \A k \in Kinds :
          /\ \A q \in some(k) : Law(drop(k, q), perm) # {}
          /\ \A q \in some(k) : \A l \in Kinds \ {k} : Law(move(k, l, q), perm) # {}
          /\ \A l \in Kinds : (marks[k] # marks[l]) => Law([marks EXCEPT ![k] = marks[l], ![l] = marks[k]], perm) # {}
          (* a mark where the system has nothing *)
          /\ LET free == {q \in {<< a, b >> : a \in {0, N - 1}, b \in 0 .. N - 1} : << At1(q[1]), At1(q[2]) >> \notin sys.P}
             IN free # {} => LET q == CHOOSE q \in free : TRUE IN Law([marks EXCEPT ![k] = @ \cup {q}], perm) # {}
(* The marks of a permuted drawing are not those of another order.         *)
Moved == (Done /\ perm \in {"reverse", "contacts first", "odd"} /\ con # << >>) => Law(marks, "none") # {}
Emit == Done => PrintT("CASE " \o ToString(<< con, Ordered(closed), open, perm >>))
=============================================================================
