------------------------------ MODULE MC_Chain ------------------------------
(***************************************************************************)
(* Histories of the whole chain on small fiber sets, computed by the       *)
(* executable reference (module Pipeline).  Every call must satisfy all    *)
(* clauses of the property CLAIM: the relations which recorded executions  *)
(* of the real library are checked against are consistent, and strong      *)
(* enough to be met by exact arithmetic without any tolerance being used   *)
(* up.  Complete histories are printed and replayed into the real library. *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
Same(x) == x
F == INSTANCE Fibermat WITH Content <- Same

CONSTANTS Mode,      \* "geometry" or "mechanics"
          Depth,     \* number of calls (at most)
          Rich       \* more fiber sets and options
Claim == IOEnv.CLAIM
pi4 == Q(11, 14)

VARIABLES rows, heap, ev, bad, script
vars == << rows, heap, ev, bad, script >>

(*------------------------------------------------------------- fiber sets *)
(* A fiber <<x, y, axis, l, h, E>> in integers; h counts halves.           *)
AxisDir == << << 1, 0, 0 >>, << 0, 1, 0 >>, << -1, 0, 0 >>, << 0, -1, 0 >> >>
FiberRow(f, i) ==
  LET d == AxisDir[f[3] + 1]
  IN  << RInt(f[4]), RInt(1), Q(f[5], 2), RInt(f[1]), RInt(f[2]), RInt(i),
         RInt(d[1]), RInt(d[2]), RInt(d[3]), RInt(2), IF f[6] = 0 THEN RInf ELSE RInt(f[6]) >>
Size == IF Mode = "geometry" THEN 4 ELSE 20
SetOf(fs) == FiberTable(TLCEval([i \in DOMAIN fs |-> FiberRow(fs[i], i)]), RInt(Size))

Places == IF Rich THEN {-2, -1, 1, 2} ELSE {-2, 1}
Lattice == {<< x, y, a, l, 2, 0 >> : x \in Places, y \in Places, a \in {0, 1}, l \in IF Rich THEN {2, 4} ELSE {4}}
WithH(f, h) == [f EXCEPT ![5] = h]
Triples == {<< WithH(f, 2), WithH(g, 4), WithH(k, 2) >> :
              f \in {<< -2, 1, 0, 4, 2, 0 >>, << 1, 1, 1, 4, 2, 0 >>}, g \in Lattice, k \in Lattice}
(* Two supports, a beam across, a load on the beam.                        *)
Bridges == {<< << s1, 0, 1, 8, h, E >>, << s2, 0, 1, 8, IF Rich THEN g ELSE h, E >>,
               << 0, 0, 0, 16, k, E >>, << p, 0, 1, 8, 2, E >> >> :
              s1 \in IF Rich THEN {-3, -2, -5} ELSE {-3, -2}, s2 \in IF Rich THEN {2, 3, 6} ELSE {3},
              h \in {2, 1}, g \in IF Rich THEN {1, 2, 3} ELSE {2}, k \in {2, 3},
              p \in {-1, 0, 1}, E \in IF Rich THEN {20, 100} ELSE {60}}
FiberSets == IF Mode = "geometry" THEN Triples ELSE Bridges

(*------------------------------------------------------------------ calls *)
None == "null"
Base(op, out) == [op |-> op, out |-> out, exc |-> None, key |-> None, uses |-> << >>]
Fresh == "o" \o ToString(Len(script) + 1)
Put(h, name, v) == [k \in {name} |-> v] @@ h
OfKind(K) == {k \in DOMAIN heap : heap[k].cls \in K}
Args(op, x) == << op >> \o x
Call(e, post, what) ==
  /\ heap' = TLCEval(post)
  /\ ev' = e
  /\ bad' = TLCEval(F!Violated(Claim, e, heap, post, pi4))
  /\ script' = Append(script, what)
  /\ rows' = rows

DoNet(periodic) ==
  LET e == Base("Net", Fresh) @@ [mat |-> "m", periodic |-> periodic, exact |-> TRUE, pairs |-> None,
                                  rel |-> None, full |-> None]
  IN  Call(e, Put(heap, Fresh, NetOf(heap["m"], periodic)), << "net", periodic >>)
PairLists == {<< >>, << << 0, 0 >>, << 1, 1 >>, << 2, 2 >> >>, << << 1, 0 >>, << 0, 1 >>, << 2, 2 >> >>,
              << << 0, 2 >>, << 2, 1 >>, << 0, 0 >> >>}
DoPairs(full, P) ==
  LET e == Base("Net", Fresh) @@ [mat |-> "m", periodic |-> FALSE, exact |-> TRUE, pairs |-> P,
                                  rel |-> None, full |-> full]
  IN  /\ heap[full].cls = "Net" /\ ~heap[full].attrs.periodic
      /\ Call(e, Put(heap, Fresh, NetOfPairs(heap["m"], P)), << "pairs", full, P >>)
DoStack(net, t) ==      \* threshold t halves, none if t = 0
  LET thr == IF t = 0 THEN None ELSE Q(t, 2)
      T1 == TLCEval(Settled(heap["m"], heap[net]))
      h1 == Put(heap, "m", T1)
      S == StackOf(T1, heap[net], thr)
      before == {k \in 1 .. Len(script) : script[k] = << "stack", net, 0 >>}
      prev == IF before = {} THEN None ELSE "o" \o ToString(CHOOSE k \in before : TRUE)
      settled == before # {} /\ \A k \in 1 .. Len(script) :
                   (k > CHOOSE b \in before : \A c \in before : c <= b) => script[k][1] # "stack"
      e == Base("Stack", Fresh) @@
             [mat |-> "m", net |-> net, threshold |-> thr,
              again |-> IF settled /\ IsNull(thr) THEN prev ELSE None,
              ref |-> IF settled /\ ~IsNull(thr) THEN prev ELSE None, refmat |-> "m"]
  IN  Call(e, Put(h1, Fresh, S), << "stack", net, t >>)
(* Fibers without their own row have no ends, and no mesh.                 *)
WithEnds(N) == \A r \in 1 .. N.len : \A a \in {N.c["A"][r], N.c["B"][r]} :
                 \E s \in 1 .. N.len : N.c["A"][s] = a /\ N.c["B"][s] = a
DoMesh(net) ==
  LET e == Base("Mesh", Fresh) @@ [mat |-> "m", net |-> net]
  IN  Call(e, Put(heap, Fresh, MeshOf(heap[net])), << "mesh", net >>)
Options == [lmin |-> Q(1, 100), lmax |-> None, coupling |-> Q(99, 100)]
DoStiffness(mesh, c) ==
  LET o == [Options EXCEPT !.coupling = Q(c, 100)]
      T == heap["m"]  M == heap[mesh]
      field(a) == [i \in 1 .. 2 * M.len |-> RInt(((i * a) % 7) - 3)]
      e == Base("Stiffness", Fresh) @@ [mat |-> "m", mesh |-> mesh, o |-> o, fields |-> << field(1), field(3), field(5) >>]
  IN  Call(e, Put(heap, Fresh, [cls |-> "System", K |-> StiffnessOf(T, M, o, pi4)]), << "stiffness", mesh, c >>)
DoConstraint(mesh) ==
  LET T == heap["m"]  M == heap[mesh]
      e == Base("Constraint", Fresh) @@ [mat |-> "m", mesh |-> mesh]
  IN  Call(e, Put(Put(heap, mesh, WithThickness(T, M)), Fresh, [cls |-> "System", C |-> ConstraintOf(T, M)]),
           << "constraint", mesh >>)
DoSolve(mesh, packing) ==
  LET o == Options @@ [packing |-> Q(packing, 10), itermax |-> 5, tol |-> E6, errtol |-> E6,
                       size |-> None, mayJam |-> FALSE]
      T == heap["m"]  M == heap[mesh]
      before == {k \in 1 .. Len(script) : script[k][1] = "solve"}
      ref == IF before = {} THEN None ELSE "o" \o ToString(CHOOSE k \in before : TRUE)
      e == Base("Solve", Fresh) @@ [mat |-> "m", mesh |-> mesh, o |-> o, small |-> TRUE,
                                    ref |-> IF Claim = "C28" THEN None ELSE ref, prefix |-> TRUE]
  IN  Call(e, Put(Put(heap, mesh, WithThickness(T, M)), Fresh, [cls |-> "Run"] @@ RunOf(T, M, o, pi4)),
           << "solve", mesh, packing >>)

Did(op) == Cardinality({k \in DOMAIN script : script[k][1] = op})
Geometry ==
  \/ Did("net") < 1 /\ \E p \in BOOLEAN : DoNet(p)
  \/ Claim \in {"C06", "C10", "C34"} /\ Did("pairs") < 1 /\ \E k \in OfKind({"Net"}) : \E P \in PairLists : DoPairs(k, P)
  \/ Claim \in {"C06", "C11", "C12", "C13", "C14", "C16", "C17", "C34"} /\ Did("stack") < 2
       /\ \E k \in OfKind({"Net", "Stack"}) : \E t \in {0, 2, 3} : DoStack(k, t)
  \/ Claim \in {"C16", "C17", "C34"} /\ Did("mesh") < 1 /\ \E k \in OfKind({"Net", "Stack"}) : WithEnds(heap[k]) /\ DoMesh(k)
Mechanics ==
  CASE Len(script) = 0 -> DoNet(FALSE)
    [] Len(script) = 1 -> DoStack("o1", 0)
    [] Len(script) = 2 -> DoMesh("o2")
    [] OTHER -> \/ Claim \in {"C19", "C20"} /\ Did("stiffness") < 1 /\ \E c \in {0, 50, 100} : DoStiffness("o3", c)
                \/ Claim = "C21" /\ Did("constraint") < 1 /\ DoConstraint("o3")
                \/ Claim \in {"C22", "C23", "C24", "C25", "C26", "C27", "C28", "C38"} /\ Did("solve") = 0 /\ DoSolve("o3", 15)
                \/ Claim = "C26" /\ Did("solve") = 1 /\ DoSolve("o3", 11)

Calls == CASE Mode = "mechanics"              -> IF Claim = "C26" THEN 5 ELSE 4
           [] Claim \in {"C04", "C05", "C07"} -> 1
           [] Claim \in {"C06", "C10"}        -> 2
           [] OTHER                           -> Depth

Init == /\ rows \in FiberSets
        /\ heap = [m |-> SetOf(rows)]
        /\ ev = [op |-> "Start"] /\ bad = {} /\ script = << >>
Next == /\ Len(script) < Calls
        /\ IF Mode = "geometry" THEN Geometry ELSE Mechanics
Sound == bad = {}
(* Complete histories, for the replay.                                     *)
Complete == Len(script) = Calls
(* (only those in which the calls the property speaks of occur)            *)
Telling == CASE Claim \in {"C16", "C17"} -> Did("mesh") = 1
             [] Claim = "C10" -> Did("pairs") = 1
             [] Claim = "C14" -> \E j \in DOMAIN script : script[j][1] = "stack" /\ script[j][3] # 0 /\
                                   \E k \in 1 .. j - 1 : script[k] = << "stack", script[j][2], 0 >>
             [] Claim \in {"C11", "C12", "C13"} -> Did("stack") >= 1
             [] OTHER -> TRUE
Emit == (Complete /\ Telling) => PrintT("CASE " \o ToString(<< rows, script >>))
=============================================================================
