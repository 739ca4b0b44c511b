----------------------------- MODULE MC_Lattice -----------------------------
(***************************************************************************)
(* All pairs of axis-aligned fibers on an integer lattice in a periodic    *)
(* box.  When such fibers cross is plain integer arithmetic, written here  *)
(* without reference to module Network; both definitions agree, images     *)
(* further than the neighbouring boxes add nothing, and no choice of frame *)
(* matters: the state machine moves the frame (and exchanges and reverses  *)
(* the fibers), and connections are preserved by every step.               *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
CONSTANTS Half0,     \* half of the size of the box
          Lens       \* lengths of the fibers
Claim == IOEnv.CLAIM
L3 == {3}
L14 == {1, 4}
L134 == {1, 3, 4}
L1234 == {1, 2, 3, 4}
L246 == {2, 4, 6}

VARIABLES f, g      \* fibers <<x, y, direction, length>>
vars == << f, g >>
Size == 2 * Half0
Coords == -Half0 .. Half0
Fibers0 == Coords \X Coords \X (0 .. 3) \X Lens

Init == /\ f \in {k \in Fibers0 : k[1] = 0 /\ k[2] = 0 /\ k[3] = 0}
        /\ g \in {k \in Fibers0 : k[3] \in {0, 1}}

(*---------------------------------------------- crossings, in integers *)
Abs(n) == IF n < 0 THEN -n ELSE n
(* Perpendicular, and each axis passes strictly inside of the other fiber. *)
Meets(a, b, sx, sy) ==
  LET dx == b[1] + Size * sx - a[1]  dy == b[2] + Size * sy - a[2]
      along(k) == IF k % 2 = 0 THEN dx ELSE dy
  IN  (a[3] + b[3]) % 2 = 1 /\ 2 * Abs(along(a[3])) < a[4] /\ 2 * Abs(along(b[3])) < b[4]
Images(a, b, r) == {s \in (-r .. r) \X (-r .. r) : Meets(a, b, s[1], s[2])}
Open == Meets(f, g, 0, 0)
Periodic == Images(f, g, 1) # {}

(*-------------------------------------------------------- steps of frame *)
Wrap(n) == IF n > Half0 THEN n - Size ELSE n
Moved(a, dx, dy) == << Wrap(a[1] + dx), Wrap(a[2] + dy), a[3], a[4] >>
Turned(a) == << -a[2], a[1], (a[3] + 1) % 4, a[4] >>
Mirrored(a) == << -a[1], a[2], (6 - a[3]) % 4, a[4] >>
Reversed(a) == << a[1], a[2], (a[3] + 2) % 4, a[4] >>
Translate == \E d \in {<< 1, 0 >>, << 0, 1 >>} : f' = Moved(f, d[1], d[2]) /\ g' = Moved(g, d[1], d[2])
Turn == f' = Turned(f) /\ g' = Turned(g)
Mirror == f' = Mirrored(f) /\ g' = Mirrored(g)
Reverse == f' = f /\ g' = Reversed(g)
Exchange == f' = g /\ g' = f
Across == \* a fiber on the border is also on the opposite one
          \E k \in {1, 2} : Abs(g[k]) = Half0 /\ g' = [g EXCEPT ![k] = -@] /\ f' = f
Next == Translate \/ Turn \/ Mirror \/ Reverse \/ Exchange \/ Across

Preserved == [][/\ Periodic' = Periodic
                /\ (Turn \/ Mirror \/ Reverse \/ Exchange) => Open' = Open]_vars

(*------------------------------------------------------------ invariants *)
D4 == << << 1, 0, 0 >>, << 0, 1, 0 >>, << -1, 0, 0 >>, << 0, -1, 0 >> >>
RowOf(k, z) == << RInt(k[4]), RInt(1), RInt(1), RInt(k[1]), RInt(k[2]), RInt(z),
                  RInt(D4[k[3] + 1][1]), RInt(D4[k[3] + 1][2]), RInt(0), RInt(1), RInf >>
T == FiberTable(<< RowOf(f, 1), RowOf(g, 2) >>, RInt(Size))
YesNo(b) == IF b THEN "yes" ELSE "no"
Complete == Images(f, g, 2) = Images(f, g, 1)     \* further images add nothing
Unique == (2 * f[4] <= Size /\ 2 * g[4] <= Size) => Cardinality(Images(f, g, 1)) <= 1
Contained == Open => Periodic
Agrees ==
  LET t == TLCEval(T) IN
  /\ Connectable(t, 0, 1, FALSE, 0) = YesNo(Open)
  /\ Connectable(t, 0, 1, TRUE, 0) = YesNo(Periodic)
  /\ Connectable(t, 1, 0, TRUE, 0) = YesNo(Periodic)
  /\ {<< RMul(s[1], Size), RMul(s[2], Size), RInt(0) >> : s \in Images(f, g, 1)}
       = {sh \in Shifts(t, 0, 1, TRUE, 0) : Crossing(t, 0, 1, sh, 0) = "yes"}
(* The reference network satisfies the relations, and the one without its  *)
(* connection, or with an additional one, does not.                        *)
Clauses(N, p) == Connectivity(T, N, p, TRUE) \cup RealCrossing(T, N, p, TRUE)
                 \cup Nodes(T, N, p) \cup Canonical(T, N, p)
Empty == NetOver(T, << << 0, 0 >>, << 1, 1 >> >>, TRUE)
Sharp ==
  /\ \A p \in BOOLEAN : Clauses(NetOf(T, p), p) = {}
  /\ Periodic => "missing connection" \in Connectivity(T, Empty, TRUE, TRUE)
  /\ (Periodic /\ ~Open) => "spurious connection" \in
        Connectivity(T, [NetOf(T, TRUE) EXCEPT !.attrs = [NetOf(T, FALSE).attrs EXCEPT !.periodic = FALSE]], FALSE, TRUE)
Emit == PrintT("CASE " \o ToString(<< f, g >>))
=============================================================================
