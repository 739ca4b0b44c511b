------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* Fibers which are not connected, directly or through others, do not      *)
(* influence each other (C40).                                             *)
(*                                                                         *)
(* A part is some fibers of a whole: map[f + 1] is the label in the whole  *)
(* of fiber f of the part, and map increases.  Both the part (alone) and   *)
(* the whole went through the chain; T, N, S, M, r are the fiber set,      *)
(* network, stack, mesh and compaction of the part, and W, V, X, Y, w      *)
(* those of the whole.                                                     *)
(*                                                                         *)
(* In the whole, the fibers of the part may also be described from their   *)
(* other end (rev): that must not matter either (C41).                     *)
(***************************************************************************)
EXTENDS Rendering

PartTol == Q(1, 100000)
Increasing(map) == \A i \in 1 .. Len(map) - 1 : map[i] < map[i + 1]

(* The fibers of the part are those of the whole, at the same height.      *)
FibersOfPart(T, W, map, rev) ==
  Chk("fibers of a part", /\ T.len = Len(map) /\ Increasing(map)
                          /\ \A c \in Range(FiberCols) \ {"z"} : \A i \in 1 .. T.len :
                               REq(IF rev[i] /\ c \in {"u", "v", "w"} THEN RNeg(T.c[c][i]) ELSE T.c[c][i],
                                   At(W, c, map[i])))
  \cup Chk("heights of a part", \A i \in 1 .. T.len :
             RAbs(T.c["z"][i] \ominus At(W, "z", map[i])) \preceq (2 \otimes StackTol))

(* The connections of the part are those of the whole.                     *)
Opposite == [sA |-> "sB", xA |-> "xB", yA |-> "yB", zA |-> "zB", sB |-> "sA", xB |-> "xA", yB |-> "yA", zB |-> "zA"]
InWhole(N, rev, c, i) ==
  LET a == N.c["A"][i] + 1  b == N.c["B"][i] + 1
      v == IF a = b /\ rev[a] THEN N.c[Opposite[c]][i] ELSE N.c[c][i]
  IN  IF (c = "sA" /\ rev[a]) \/ (c = "sB" /\ rev[b]) THEN RNeg(v) ELSE v
RowsOfPart(N, V, map, rev) ==
  LET S == Range(map)
      touch == SelectSeq([k \in 1 .. V.len |-> k], LAMBDA k : V.c["A"][k] \in S \/ V.c["B"][k] \in S)
  IN UNION {
    Chk("parts are linked", \A i \in DOMAIN touch : V.c["A"][touch[i]] \in S /\ V.c["B"][touch[i]] \in S),
    Chk("connections of a part", Len(touch) = N.len /\ \A i \in 1 .. N.len : LET k == touch[i] IN
          /\ V.c["A"][k] = map[N.c["A"][i] + 1]
          /\ V.c["B"][k] = map[N.c["B"][i] + 1]
          /\ \A c \in Range(NetCols) \ {"A", "B"} : RAbs(InWhole(N, rev, c, i) \ominus V.c[c][k]) \preceq (2 \otimes StackTol)) }

(* Nodes of fiber f, in order.                                             *)
NodesOn(M, f) == SelectSeq([i \in 1 .. M.len |-> i - 1], LAMBDA k : At(M, "fiber", k) = f)
(* The nodes of the whole which the nodes of the part are.                 *)
NodeMap(M, Y, map, rev) ==
  LET first(f) == CHOOSE k \in 0 .. Y.len - 1 : At(Y, "fiber", k) = f /\ First(Y, k)
      own == TLCEval([f \in Range(M.c["fiber"]) |-> NodesOn(M, f)])
      at == TLCEval([f \in DOMAIN own |-> first(map[f + 1])])
  IN  TLCEval([k \in 1 .. M.len |-> LET f == M.c["fiber"][k]  r == (k - 1) - own[f][1] IN
                                    at[f] + (IF rev[f + 1] THEN Len(own[f]) - 1 - r ELSE r)])
(* No two nodes of a fiber coincide: otherwise their order is open.        *)
Apart(M) == \A k \in 0 .. M.len - 2 :
              At(M, "fiber", k) # At(M, "fiber", k + 1) \/ (At(M, "s", k) \oplus E6) \prec At(M, "s", k + 1)
NodesMatch(M, Y, map) == \A f \in Range(M.c["fiber"]) : Len(NodesOn(M, f)) = Len(NodesOn(Y, map[f + 1]))
(* The beams, whichever of their nodes comes first.                        *)
Spans(M) == {{k, At(M, "beam", k)} : k \in Range(Beams(M))}
MeshOfPart(M, Y, map, rev) ==
  IF ~NodesMatch(M, Y, map) THEN {"nodes of a part"}
  ELSE IF ~Apart(M) THEN {}
  ELSE LET nm == NodeMap(M, Y, map, rev)
           Image(c, k) == nm[M.c[c][k] + 1]
           Turned(k) == rev[M.c["fiber"][k] + 1]
           spans == TLCEval(Spans(Y)) IN UNION {
    Chk("places of the nodes of a part", \A k \in 1 .. M.len : \A c \in {"s", "x", "y", "z"} :
          RAbs((IF c = "s" /\ Turned(k) THEN RNeg(M.c[c][k]) ELSE M.c[c][k]) \ominus At(Y, c, nm[k]))
             \preceq (2 \otimes StackTol)),
    Chk("beams of a part", \A k \in 1 .. M.len : Turned(k) \/ At(Y, "beam", nm[k]) = Image("beam", k)),
    Chk("beams of a turned fiber", \A b \in Spans(M) : {nm[k + 1] : k \in b} \in spans),
    Chk("links of a part", \A k \in 1 .. M.len : At(Y, "constraint", nm[k]) = Image("constraint", k)) }

(*------------------------------------------------------------- mechanics *)
(* The bounds on the lengths of the beams depend on all beams, unless they *)
(* change none.                                                            *)
Unbounded(M, o) == LET B == Beams(M) IN
  IsNull(o.lmax) /\ (IsNull(o.lmin) \/ \A e \in DOMAIN B : o.lmin \prec BeamLen(M, B[e]))
(* Rows of the contact conditions (from 1).                                *)
RowMap(M, Y, nm) ==
  LET L == TLCEval(Links(M))  P == TLCEval(Links(Y))
      pos == TLCEval([r \in DOMAIN L |-> CHOOSE q \in DOMAIN P : P[q] = nm[L[r] + 1]])
  IN  TLCEval([q \in 1 .. 3 * Len(L) |-> 3 * (pos[(q - 1) \div 3 + 1] - 1) + ((q - 1) % 3) + 1])
SystemOfPart(T, W, M, Y, y, z, nm, rm, sg) ==
  LET K == SpMap(y.K.row, y.K.col, y.K.val)  Kw == SpMap(z.K.row, z.K.col, z.K.val)
      C == SpMap(y.C.row, y.C.col, y.C.val)  Cw == SpMap(z.C.row, z.C.col, z.C.val)
      dof(d) == 2 * nm[d \div 2 + 1] + (d % 2)
      dofs == {dof(d) : d \in 0 .. y.n - 1}
      rows == {rm[q] - 1 : q \in DOMAIN rm}
      drop == Top(W, Y) \ominus Top(T, M)
      Touching(A, R, D) == {p \in DOMAIN A : (p[1] \in R \/ p[2] \in D) /\ ~REq(A[p], 0)}
      NonZero(A) == {p \in DOMAIN A : ~REq(A[p], 0)}
  IN UNION {
    Chk("stiffness of a part", \A p \in NonZero(K) :
          Close(Get(Kw, << dof(p[1]), dof(p[2]) >>), sg[p[1] + 1] \otimes (sg[p[2] + 1] \otimes K[p]), E6)),
    Chk("stiffness between parts", Cardinality(Touching(Kw, dofs, dofs)) = Cardinality(NonZero(K))),
    Chk("conditions of a part", \A p \in NonZero(C) : REq(Get(Cw, << rm[p[1] + 1] - 1, dof(p[2]) >>), C[p])),
    Chk("conditions between parts", Cardinality(Touching(Cw, rows, dofs)) = Cardinality(NonZero(C))),
    Chk("bounds of a part", \A q \in 1 .. y.m :
          LET b == z.H0[rm[q]] \ominus (IF q % 3 = 0 THEN drop ELSE RInt(0)) IN
          IF IsFin(y.H0[q]) THEN RAbs(b \ominus y.H0[q]) \preceq (8 \otimes StackTol)
          ELSE REq(z.H0[rm[q]], y.H0[q])) }

(* Under a ceiling at height Z the part of the whole is as the part alone. *)
(* Between the steps of a compaction everything changes proportionally.    *)
Between(steps, Z) == CHOOSE k \in 1 .. Len(steps) - 1 : steps[k + 1].Z \preceq Z /\ Z \preceq steps[k].Z
Under(steps, Z, v) ==
  LET k == Between(steps, Z)  a == steps[k]  b == steps[k + 1]
      t == (a.Z \ominus Z) \oslash (a.Z \ominus b.Z)
  IN  TLCEval([i \in DOMAIN a[v] |-> a[v][i] \oplus (t \otimes (b[v][i] \ominus a[v][i]))])
HistoryOfPart(T, M, Y, r, w, nm, rm, sg, tol) ==
  LET y == r.y
      P == r.steps  n == Len(P)
      Same(s, u, f) ==
        LET sc == PartTol \otimes ForceScale(s) IN
        /\ \A d \in 1 .. y.n : Close(s.u[2 * nm[(d + 1) \div 2] + 2 - (d % 2)], sg[d] \otimes u[d], PartTol)
        /\ \A q \in 1 .. y.m : RAbs(s.f[rm[q]] \ominus f[q]) \preceq sc
      one == IF Ambiguous(y, P, tol) \/ Ambiguous(w.y, w.steps, tol) THEN {}
             ELSE {k \in DOMAIN w.steps : P[n].Z \preceq w.steps[k].Z}
  IN UNION {
    Chk("part below the ceiling", \A k \in one : P[1].Z \prec w.steps[k].Z => Same(w.steps[k], P[1].u, P[1].f)),
    Chk("history of a part", \A k \in one : LET Z == w.steps[k].Z IN
          (Z \preceq P[1].Z /\ n > 1) => Same(w.steps[k], Under(P, Z, "u"), Under(P, Z, "f"))) }

PartShaped(T, N, S, M) ==
  /\ Shaped(T, FiberCols) /\ Shaped(N, NetCols) /\ Shaped(S, NetCols) /\ MeshShaped(M)
(* o: the options of both compactions.                                     *)
PartLaw(T, N, S, M, r, W, V, X, Y, w, map, rev, o) ==
  IF ~(PartShaped(T, N, S, M) /\ PartShaped(W, V, X, Y)) THEN {"shape"}
  ELSE LET first == FibersOfPart(T, W, map, rev) \cup RowsOfPart(N, V, map, rev)
                    \cup RowsOfPart(S, X, map, rev) \cup MeshOfPart(M, Y, map, rev)
       IN  IF first # {} \/ M.len = 0 \/ ~Apart(M) \/ IsNull(o) THEN first
           ELSE IF ~(StepsShaped(T, M, r.y, r.steps) /\ StepsShaped(W, Y, w.y, w.steps)) THEN {"shape"}
           ELSE LET nm == NodeMap(M, Y, map, rev)  rm == RowMap(M, Y, nm)
                    \* rotations change their sign when a fiber is turned
                    sg == TLCEval([d \in 1 .. 2 * M.len |->
                             RInt(IF d % 2 = 0 /\ rev[M.c["fiber"][d \div 2] + 1] THEN -1 ELSE 1)])
                IN  IF ~(Unbounded(M, o) /\ Unbounded(Y, o)) THEN {}
                    ELSE SystemOfPart(T, W, M, Y, r.y, w.y, nm, rm, sg)
                         \cup HistoryOfPart(T, M, Y, r, w, nm, rm, sg, o.tol)
=============================================================================
