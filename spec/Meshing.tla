------------------------------ MODULE Meshing ------------------------------
(***************************************************************************)
(* Meshes: nodes of the connections, ordered along the fibers.             *)
(***************************************************************************)
EXTENDS Stacking

MeshShaped(M) ==
  /\ Shaped(M, MeshCols)
  /\ \A c \in {"fiber", "beam", "constraint"} : IsIntCol(M, c)
  /\ \A k \in 1 .. M.len : /\ M.c["beam"][k] \in 0 .. M.len - 1
                           /\ M.c["constraint"][k] \in 0 .. M.len - 1

Node(M, k) == << M.c["fiber"][k + 1], M.c["s"][k + 1], M.c["x"][k + 1], M.c["y"][k + 1], M.c["z"][k + 1] >>
NodeA(N, k) == << N.c["A"][k], N.c["sA"][k], N.c["xA"][k], N.c["yA"][k], N.c["zA"][k] >>
NodeB(N, k) == << N.c["B"][k], N.c["sB"][k], N.c["xB"][k], N.c["yB"][k], N.c["zB"][k] >>

(* Number of occurrences of every element of a sequence.                   *)
Bag(s) == LET R == Range(s)
          IN  [x \in R |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ Range(s) = Range(t)
                 /\ (Cardinality(Range(s)) # Len(s) => Bag(s) = Bag(t))

(* C16 *)
Linked(M) == SelectSeq([i \in 1 .. M.len |-> i - 1], LAMBDA k : M.c["constraint"][k + 1] > k)
SelfLinked(M) == SelectSeq([i \in 1 .. M.len |-> i - 1], LAMBDA k : M.c["constraint"][k + 1] = k)
EndRows(N) == SelectSeq([k \in 1 .. N.len |-> k], LAMBDA k : N.c["A"][k] = N.c["B"][k])
NodesOfConnections(N, M) ==
  IF ~(MeshShaped(M) /\ Shaped(N, NetCols)) THEN {"shape"}
  ELSE LET L == Linked(M)  S == SelfLinked(M)  I == InnerSeq(N)  E == EndRows(N) IN UNION {
    Chk("number of nodes", M.len = 2 * N.len),
    Chk("reciprocal", \A k \in 0 .. M.len - 1 : At(M, "constraint", At(M, "constraint", k)) = k),
    Chk("connections", SameBag([i \in DOMAIN L |-> << Node(M, L[i]), Node(M, At(M, "constraint", L[i])) >>],
                               [i \in DOMAIN I |-> << NodeA(N, I[i]), NodeB(N, I[i]) >>])),
    Chk("fiber ends", SameBag([i \in DOMAIN S |-> Node(M, S[i])],
                              [i \in 1 .. 2 * Len(E) |-> IF i <= Len(E) THEN NodeA(N, E[i])
                                                         ELSE NodeB(N, E[i - Len(E)])])) }

(* C17 *)
First(M, k) == k = 0 \/ At(M, "fiber", k - 1) # At(M, "fiber", k)
Last(M, k) == k = M.len - 1 \/ At(M, "fiber", k + 1) # At(M, "fiber", k)
SortedNodes(M) ==
  \A k \in 1 .. M.len - 1 : \/ M.c["fiber"][k] < M.c["fiber"][k + 1]
                            \/ M.c["fiber"][k] = M.c["fiber"][k + 1] /\ M.c["s"][k] \preceq M.c["s"][k + 1]
BeamCycle(M) ==
  \A k \in 0 .. M.len - 1 :
    IF ~Last(M, k) THEN At(M, "beam", k) = k + 1
    ELSE LET j == At(M, "beam", k) IN j <= k /\ First(M, j) /\ At(M, "fiber", j) = At(M, "fiber", k)
Structure(T, N, M) ==
  IF ~MeshShaped(M) THEN {"shape"}
  ELSE UNION {
    Chk("labels", Labelled(M)),
    Chk("fibers in range", \A k \in 1 .. M.len : M.c["fiber"][k] \in 0 .. T.len - 1),
    Chk("every fiber", M.len > 0 => Range(M.c["fiber"]) = {N.c["A"][k] : k \in 1 .. N.len} \cup {N.c["B"][k] : k \in 1 .. N.len}),
    Chk("sorted nodes", SortedNodes(M)),
    Chk("beams", BeamCycle(M)),
    Chk("involution", \A k \in 0 .. M.len - 1 : At(M, "constraint", At(M, "constraint", k)) = k),
    Chk("self links are the fiber ends", \A k \in 0 .. M.len - 1 :
          (At(M, "constraint", k) = k) = (First(M, k) \/ Last(M, k))),
    Chk("ends at half length", \A k \in 0 .. M.len - 1 :
          LET l == Half(At(T, "l", At(M, "fiber", k))) IN
          /\ First(M, k) => REq(At(M, "s", k), RNeg(l))
          /\ Last(M, k) => REq(At(M, "s", k), l)),
    Chk("attributes", M.attrs = N.attrs) }

(* C18 *)
LabelsIn(M, c, hi) == \A k \in 1 .. M.len : 0 \preceq M.c[c][k] /\ M.c[c][k] \prec hi
Ok(M, c, hi) == c \in Range(M.cols) => LabelsIn(M, c, hi)
AllInt(M) == \A c \in {"fiber", "beam", "constraint"} : c \in Range(M.cols) /\ IsIntCol(M, c)
MeshDefects(M) ==
  LET sound == AllInt(M) /\ HasCols(M, MeshCols) /\ Labelled(M)
      inRange == sound /\ LabelsIn(M, "beam", M.len) /\ LabelsIn(M, "constraint", M.len)
      sorted == sound /\ SortedNodes(M)
  IN UNION {
      Chk("KeyError", HasCols(M, MeshCols)),
      Chk("AttributeError", Attributes(M, << "n", "size", "periodic" >>)),
      Chk("IndexError", Labelled(M)),
      Chk("TypeError", \A c \in {"fiber", "beam", "constraint"} \cap Range(M.cols) : IsIntCol(M, c)),
      Chk("ValueError", HasAttr(M, "n") => Ok(M, "fiber", M.attrs.n)),
      Chk("ValueError", Ok(M, "beam", M.len) /\ Ok(M, "constraint", M.len)),
      Chk("ValueError", sound => sorted),
      Chk("ValueError", (inRange /\ sorted) => BeamCycle(M)),
      Chk("ValueError", inRange => \A k \in 0 .. M.len - 1 : At(M, "constraint", At(M, "constraint", k)) = k),
      Chk("ValueError", (inRange /\ sorted) => \A k \in 0 .. M.len - 1 :
                          (First(M, k) \/ Last(M, k)) => At(M, "constraint", k) = k) }
MeshVerdict(M) == IF SkipCheck(M) THEN {"ok"} ELSE Outcomes(MeshDefects(M))
=============================================================================
