------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* An executable reference of the whole chain: from a fiber set to its     *)
(* network, stack, mesh, mechanical system and compaction.                 *)
(*                                                                         *)
(* The other modules say what must hold between the objects (and leave the *)
(* implementation its freedom); this one computes one admissible result.   *)
(* TLC checks on it that the relations are consistent with each other.     *)
(***************************************************************************)
EXTENDS Sampling

Col(cols, k) == CHOOSE a \in DOMAIN cols : cols[a] = k
(* A table of n rows whose value in column k and row i is f[k][i].         *)
MakeTable(n, cols, ints, f, attrs, cls) ==
  [len |-> n, cols |-> cols,
   dtype |-> TLCEval([k \in Range(cols) |-> IF k \in ints THEN "int" ELSE "float"]),
   c |-> f, index |-> TLCEval([i \in 1 .. n |-> i - 1]), attrs |-> attrs, cls |-> cls]

(* Fiber set from the sequence of its rows (in the order of FiberCols).    *)
FiberTable(F, size) ==
  MakeTable(Len(F), FiberCols, {},
            TLCEval([k \in Range(FiberCols) |->
                       LET a == Col(FiberCols, k) IN TLCEval([i \in 1 .. Len(F) |-> F[i][a]])]),
            [n |-> Len(F), size |-> size], "Mat")

(*--------------------------------------------------------------- networks *)
AllPairs(n) == LET q == [k \in 1 .. n * n |-> << (k - 1) \div n, (k - 1) % n >>]
               IN  SelectSeq(q, LAMBDA p : p[1] <= p[2])
Connected(T, i, j, periodic) == i = j \/ Connectable(T, i, j, periodic, 0) = "yes"
CrossShift(T, i, j, periodic) ==
  CHOOSE sh \in Shifts(T, i, j, periodic, 0) : Crossing(T, i, j, sh, 0) = "yes"
NetRowOf(T, p, periodic) ==
  LET i == p[1]  j == p[2]
      S == IF i = j THEN << Half(At(T, "l", i)), RNeg(Half(At(T, "l", i))) >>
           ELSE LET P == Nearest(T, i, j, CrossShift(T, i, j, periodic)) IN << P.si, P.sj >>
      X == Add3(Ctr(T, i), Scale3(S[1], Dir(T, i)))
      Y == Add3(Ctr(T, j), Scale3(S[2], Dir(T, j)))
  IN  << i, j, S[1], S[2], X[1], X[2], X[3], Y[1], Y[2], Y[3] >>
RowTable(rows, cols, ints, attrs, cls) ==
  MakeTable(Len(rows), cols, ints,
            TLCEval([k \in Range(cols) |->
                       LET a == Col(cols, k) IN TLCEval([i \in 1 .. Len(rows) |-> rows[i][a]])]), attrs, cls)
NetOver(T, P, periodic) ==
  RowTable(TLCEval([k \in 1 .. Len(P) |-> NetRowOf(T, P[k], periodic)]), NetCols, {"A", "B"},
           T.attrs @@ [periodic |-> periodic], "Net")
NetOf(T, periodic) ==
  NetOver(T, SelectSeq(AllPairs(T.len), LAMBDA p : Connected(T, p[1], p[2], periodic)), periodic)
(* The network restricted to a list of pairs.                              *)
NetOfPairs(T, pairs) ==
  LET want == {NormPair(pairs[i]) : i \in DOMAIN pairs}
  IN  NetOver(T, SelectSeq(AllPairs(T.len), LAMBDA p : p \in want /\ Connected(T, p[1], p[2], FALSE)), FALSE)

(*----------------------------------------------------------------- stacks *)
InnerPairs(N) == {<< N.c["A"][k] + 1, N.c["B"][k] + 1 >> : k \in Inner(N)}
Settled(T, N) ==
  LET z == TLCEval(LeastHeights(T.c["h"], InnerPairs(N)))
  IN  [T EXCEPT !.c = [T.c EXCEPT !["z"] = z]]
Rows(N, cols) == TLCEval([k \in 1 .. N.len |-> TLCEval([a \in DOMAIN cols |-> N.c[cols[a]][k]])])
(* The stack (fibers in the plane), T1 is the settled fiber set.           *)
StackOf(T1, N, threshold) ==
  LET R == Rows(N, NetCols)
      z(row, a) == At(T1, "z", row[a])
      lifted == TLCEval([k \in DOMAIN R |-> [R[k] EXCEPT ![7] = z(R[k], 1), ![10] = z(R[k], 2)]])
      kept == IF IsNull(threshold) THEN lifted
              ELSE SelectSeq(lifted, LAMBDA r : r[1] = r[2] \/ RAbs(r[10] \ominus r[7]) \preceq threshold)
  IN  RowTable(kept, NetCols, {"A", "B"}, N.attrs, "Stack")

(*----------------------------------------------------------------- meshes *)
(* Entry 2k - 1 is the node on fiber A of row k and entry 2k that on B.    *)
MeshOf(N) ==
  LET m == 2 * N.len
      row(q) == (q + 1) \div 2
      node(q) == IF q % 2 = 1 THEN NodeA(N, row(q)) ELSE NodeB(N, row(q))
      nodes == TLCEval([q \in 1 .. m |-> node(q)])
      Before(p, q) == \/ nodes[p][1] < nodes[q][1]
                      \/ nodes[p][1] = nodes[q][1] /\ (nodes[p][2] \prec nodes[q][2]
                           \/ (REq(nodes[p][2], nodes[q][2]) /\ p < q))
      order == TLCEval(SortSeq([q \in 1 .. m |-> q], Before))
      place == TLCEval([q \in 1 .. m |-> CHOOSE i \in 1 .. m : order[i] = q])
      other(q) == IF N.c["A"][row(q)] = N.c["B"][row(q)] THEN q ELSE IF q % 2 = 1 THEN q + 1 ELSE q - 1
      fib(i) == nodes[order[i]][1]
      start(i) == CHOOSE j \in 1 .. i : fib(j) = fib(i) /\ (j = 1 \/ fib(j - 1) # fib(j))
      beam(i) == IF i < m /\ fib(i + 1) = fib(i) THEN i ELSE start(i) - 1
      rows == TLCEval([i \in 1 .. m |-> nodes[order[i]] \o << beam(i), place[other(order[i])] - 1 >>])
  IN  RowTable(rows, MeshCols, {"fiber", "beam", "constraint"}, N.attrs, "Mesh")

WithThickness(T, M) ==
  [M EXCEPT !.cols = IF "h" \in Range(M.cols) THEN M.cols ELSE Append(M.cols, "h"),
            !.dtype = [k \in {"h"} |-> "float"] @@ M.dtype,
            !.c = [k \in {"h"} |-> TLCEval([i \in 1 .. M.len |-> Thick(T, M, i - 1)])] @@ M.c]

(*-------------------------------------------------------------- compaction *)
SystemOf(T, M, o, pi4) ==
  LET C == ConstraintOf(T, M)
  IN  [n |-> 2 * M.len, m |-> 3 * Len(Links(M)), K |-> StiffnessOf(T, M, o, pi4), C |-> C, H0 |-> C.H]
Masked(y, active) == TLCEval([i \in 1 .. y.n + y.m |-> i <= y.n \/ (i - y.n) \in active])
State0(T, M, y, tol) ==
  LET s == [u |-> Zeros(y.n), f |-> Zeros(y.m), F |-> Zeros(y.n), H |-> y.H0,
            Z |-> IF M.len = 0 THEN RInt(0) ELSE Top(T, M)]
  IN  s @@ [rl |-> RInt(1), err |-> RInt(0), mask |-> Masked(y, Range(ActiveRows(y, s, tol)))]
StepsOf(T, M, y, o) ==
  LET s0 == State0(T, M, y, o.tol)
      RECURSIVE Go(_)
      Go(seq) ==
        LET s == seq[Len(seq)] IN
        IF o.packing \preceq s.rl \/ Len(seq) - 1 = o.itermax THEN seq
        ELSE LET e == TLCEval(NextEvent(y, s, o.tol)) IN
             IF ~e.ok THEN seq
             ELSE Go(Append(seq, e.state @@ [rl |-> s0.Z \oslash e.state.Z, err |-> RInt(0),
                                             mask |-> Masked(y, Range(ActiveRows(y, s, o.tol)))]))
  IN  TLCEval(Go(<< s0 >>))
Reading(s) == [u |-> s.u, f |-> s.f, F |-> s.F, H |-> s.H, Z |-> s.Z, rl |-> s.rl]
RunOf(T, M, o, pi4) ==
  LET y == TLCEval(SystemOf(T, M, o, pi4))
      steps == StepsOf(T, M, y, o)
  IN  [y |-> y, steps |-> steps, first |-> Reading(steps[1]), last |-> Reading(steps[Len(steps)])]
=============================================================================
