------------------------------- MODULE MC_Mesh -------------------------------
(***************************************************************************)
(* All small networks, also such that Net itself never builds: fibers      *)
(* without rows, several connections of a pair, nodes at the same place of *)
(* a fiber, rows in any order, more attributes.  Their mesh (by the        *)
(* reference of module Pipeline) satisfies every clause, and the clauses   *)
(* are sharp: no other table with the same nodes passes for their mesh.    *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
CONSTANTS Depth, Labels, Total, Long
Claim == IOEnv.CLAIM

L012 == << 0, 1, 2 >>
L02 == << 0, 2 >>
L013 == << 0, 1, 3 >>

VARIABLES rows, mesh
vars == << rows, mesh >>

(* A connection <<A, B, sA, sB>> in integers; all fibers have length 4.    *)
Fiber == [k \in 1 .. Len(Labels) |-> Labels[k]]
Selfs == [k \in DOMAIN Fiber |-> << Fiber[k], Fiber[k], 2, -2 >>]
Where == IF Long THEN {-1, 0, 1} ELSE {-1, 1}
Connections == {<< a, b, s, t >> : a \in Range(Fiber), b \in Range(Fiber), s \in Where, t \in Where}
Admitted == {c \in Connections : c[1] < c[2]}
(* Nodes are told apart by their positions.                                *)
NetRowAt(c) == << c[1], c[2], RInt(c[3]), RInt(c[4]),
                  RInt(10 * c[1] + c[3]), RInt(c[3] - c[1]), RInt(c[1]),
                  RInt(10 * c[2] + c[4]), RInt(c[4] - c[2]), RInt(c[2]) >>
NetAt(r) == RowTable(TLCEval([k \in DOMAIN r |-> NetRowAt(r[k])]), NetCols, {"A", "B"},
                     [n |-> Total, size |-> RInt(40), periodic |-> FALSE, note |-> 7], "Net")
Fibers0 == FiberTable(TLCEval([i \in 1 .. Total |->
             << RInt(4), RInt(1), RInt(1), RInt(0), RInt(0), RInt(i), RInt(1), RInt(0), RInt(0), RInt(2), RInt(60) >>]),
             RInt(40))

Init == rows = Selfs /\ mesh = MeshOf(NetAt(Selfs))
Add(r) == rows' = r /\ mesh' = TLCEval(MeshOf(NetAt(r)))
(* A further row is put after, or before, the rows that are there.         *)
Next == /\ Len(rows) < Len(Selfs) + Depth
        /\ \E c \in Admitted :
             /\ \A k \in DOMAIN rows : rows[k] # c
             /\ \/ Add(Append(rows, c))
                \/ Long /\ Add(<< c >> \o rows)

AllClauses(N, M) == NodesOfConnections(N, M) \cup Structure(Fibers0, N, M)
                    \cup (IF MeshVerdict(M) = {"ok"} THEN {} ELSE {"check"})
Sound == LET N == NetAt(rows) IN NetVerdict(N) = {"ok"} /\ AllClauses(N, mesh) = {}

(* Other tables with the same nodes.                                       *)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Labels0 == 1 .. mesh.len
Relinked(i, j) ==       \* nodes i and j exchange their partners
  LET p == mesh.c["constraint"][i] + 1  q == mesh.c["constraint"][j] + 1
      c == mesh.c["constraint"]
      Over(k) == CASE k = i -> q - 1 [] k = j -> p - 1 [] k = p -> j - 1 [] k = q -> i - 1 [] OTHER -> c[k]
  IN  [mesh EXCEPT !.c = [mesh.c EXCEPT !["constraint"] = [k \in Labels0 |-> Over(k)]]]
Rebeamed(i, j) == [mesh EXCEPT !.c = [mesh.c EXCEPT !["beam"] = Swap(mesh.c["beam"], i, j)]]
Tied(i, j) == Node(mesh, i - 1) = Node(mesh, j - 1)
Partner(i) == mesh.c["constraint"][i] + 1
Complete == Len(rows) = Len(Selfs) + Depth
Sharp == Complete =>
  LET N == TLCEval(NetAt(rows)) IN
  \A i, j \in Labels0 : i < j =>
    /\ AllClauses(N, Rebeamed(i, j)) # {}
    /\ (Partner(i) # j /\ ~Tied(i, j) /\ ~Tied(Partner(i), Partner(j))) =>
          AllClauses(N, Relinked(i, j)) # {}
Emit == Complete => PrintT("CASE " \o ToString(<< Total, rows >>))
=============================================================================
