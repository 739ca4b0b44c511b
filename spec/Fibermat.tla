------------------------------ MODULE Fibermat ------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* The state is a heap: a function from the names of the live objects      *)
(* (fiber sets, networks, stacks, meshes, assembled systems, solutions,    *)
(* exports) to their contents.  Contents are identified by numbers; equal  *)
(* numbers mean equal contents and Content(k) is the content itself.       *)
(*                                                                         *)
(* A transition is a call of the library, described by a record e: e.op,   *)
(* the names of the arguments, the options, e.out (the name of the object  *)
(* which is created) or e.exc (the error which is raised).  For every      *)
(* operation this module says which objects the call may write, and which  *)
(* relation must hold between the heap before (pre) and after (post).      *)
(***************************************************************************)
EXTENDS Parts
CONSTANT Content(_)

At0(h, name) == Content(h[name])

(*------------------------------------------------------------------ frame *)
(* Objects which a call may write, and how.                                *)
Written(e) ==
  CASE e.op = "Stack"                    -> {e.mat}
    [] e.op \in {"Constraint", "Solve"}  -> {e.mesh}
    [] e.op = "Edit"                     -> {e.target}
    [] OTHER                             -> {}
OnlyColumn(T0, T1, col) ==
  /\ T0.len = T1.len /\ T0.index = T1.index /\ T0.attrs = T1.attrs /\ T0.cls = T1.cls
  /\ Range(T1.cols) \cup {col} = Range(T0.cols) \cup {col}
  /\ \A k \in Range(T0.cols) \ {col} : T0.c[k] = T1.c[k] /\ T0.dtype[k] = T1.dtype[k]
Frame(e, pre, post) ==
  UNION {
    Chk("an object appears or disappears",
        DOMAIN post = (DOMAIN pre \ (IF e.op = "Drop" THEN {e.target} ELSE {}))
                      \cup (IF IsNull(e.out) THEN {} ELSE {e.out})),
    {"changes " \o e.op : x \in {x \in (DOMAIN pre \cap DOMAIN post) \ (Written(e) \cup {e.out}) :
                                   pre[x] # post[x]}},
    Chk("stacking writes more than heights", e.op = "Stack" /\ pre[e.mat] # post[e.mat] =>
          OnlyColumn(At0(pre, e.mat), At0(post, e.mat), "z")),
    Chk("assembling writes more than thicknesses",
          e.op \in {"Constraint", "Solve"} /\ pre[e.mesh] # post[e.mesh] =>
          OnlyColumn(At0(pre, e.mesh), At0(post, e.mesh), "h")) }

(* The key of a call: the same call on equal contents gives equal results. *)
Key(e, pre) == << e.op, [a \in Range(e.uses) |-> pre[a]], e.key >>

(*---------------------------------------------------------- the relations *)
SameWrapped(T0, T1, cls) ==
  UNION { Chk("type", T1.cls = cls),
          Chk("table", T0.len = T1.len /\ T0.index = T1.index /\ T0.cols = T1.cols
                       /\ \A k \in Range(T0.cols) : T0.c[k] = T1.c[k] /\ T0.dtype[k] = T1.dtype[k]),
          Chk("attributes", T0.attrs = T1.attrs) }
Verdicts(cls, T) == CASE cls = "Mat" -> MatVerdict(T)
                      [] cls \in {"Net", "Stack"} -> NetVerdict(T)
                      [] cls = "Mesh" -> MeshVerdict(T)
Verdict(e) ==
  LET T == Content(e.table) IN
  UNION { Chk("check: " \o e.result, e.result \in Verdicts(e.cls, T)),
          Chk("construction: " \o e.built,
              e.built \in (IF IsNull(e.builtOk) THEN {e.built} ELSE Verdicts(e.cls, T))),
          Chk("check and construction differ",
              IsNull(e.builtOk) \/ ((e.result = "ok") <=> (e.built = "ok"))),
          Chk("warning of skipped check", SkipCheck(T) => e.warned) }

NetClauses(c, e, pre, post) ==
  LET T == At0(pre, e.mat)  N == At0(post, e.out)
      full == IsNull(e.pairs)
  IN CASE c = "C04" /\ full /\ ~e.periodic -> Connectivity(T, N, FALSE, e.exact)
       [] c = "C05" /\ full /\ e.periodic  -> Connectivity(T, N, TRUE, e.exact)
                                              \cup RealCrossing(T, N, TRUE, e.exact)
       [] c = "C06" -> Nodes(T, N, e.periodic)
       [] c = "C07" /\ full -> Canonical(T, N, e.periodic)
       [] c = "C08" /\ ~IsNull(e.rel) ->
            Transformed(At0(pre, e.rel.mat), At0(pre, e.rel.net), T, N, e.rel.tr, e.periodic)
       [] c = "C10" /\ ~full -> Restricted(T, At0(pre, e.full), N, e.pairs)
       [] OTHER -> {}

StackClauses(c, e, pre, post) ==
  LET T0 == At0(pre, e.mat)  T == At0(post, e.mat)
      N == At0(pre, e.net)   N1 == At0(post, e.net)
      S == At0(post, e.out)  thr == ~IsNull(e.threshold)
      inPlane == T.len = 0 \/ \A i \in 1 .. T.len : REq(T.c["w"][i], 0)
  IN CASE c = "C06" -> Nodes(T, S, N.attrs.periodic)
       [] c = "C11" -> NonPenetration(T, N, S, inPlane)
       [] c = "C12" -> Lowest(T, N)
       [] c = "C13" -> (IF inPlane THEN OnlyVertical(T0, T, N, N1, S, thr) ELSE {})
                       \cup (IF IsNull(e.again) THEN {}
                             ELSE SameHeights(T0, T) \cup
                                  (IF thr THEN {} ELSE SameStack(At0(pre, e.again), S)))
       [] c = "C14" /\ thr /\ ~IsNull(e.ref) ->
            Filtered(T, At0(pre, e.ref), S, e.threshold) \cup SameHeights(At0(pre, e.refmat), T)
       [] OTHER -> {}

MeshClauses(c, e, pre, post) ==
  LET N == At0(pre, e.net)  M == At0(post, e.out)
  IN CASE c = "C16" -> NodesOfConnections(N, M)
       [] c = "C17" -> Structure(At0(pre, e.mat), N, M)
       [] OTHER -> {}

SystemClauses(c, e, pre, post, pi4) ==
  LET T == At0(pre, e.mat)  M == At0(pre, e.mesh)  y == At0(post, e.out)
  IN CASE e.op = "Stiffness" /\ c = "C19" -> StiffnessLaw(T, M, e.o, y.K, pi4)
       [] e.op = "Stiffness" /\ c = "C20" -> StiffnessForm(T, M, y.K, e.fields)
       [] e.op = "Constraint" /\ c = "C21" -> ConstraintLaw(T, M, y.C, At0(post, e.mesh))
       [] OTHER -> {}

(* The system of a run with the matrices of the specification: forces are  *)
(* those of the documented beams and contacts, whatever the solver used.   *)
Documented(T, M, y, o, pi4) ==
  IF MeshShaped(M) /\ Shaped(T, FiberCols)
  THEN [y EXCEPT !.K = StiffnessOf(T, M, o, pi4), !.C = ConstraintOf(T, M)] ELSE y
SolveClauses(c, e, pre, post, pi4) ==
  LET T == At0(pre, e.mat)  M == At0(pre, e.mesh)  r == At0(post, e.out)
      y == Documented(T, M, r.y, e.o, pi4)  steps == r.steps
  IN CASE c = "C22" -> NoCrossing(T, M, y, steps)
       [] c = "C23" -> Equilibrium(T, M, y, steps, e.o.tol)
       [] c = "C24" -> Progress(T, M, y, steps, e.o)
                       \cup (IF e.small THEN Machine(T, M, y, steps, e.o) ELSE {})
       [] c = "C25" -> StepLaw(T, M, y, steps, e.o)
                       \cup (IF e.small THEN Machine(T, M, y, steps, e.o) ELSE {})
       [] c = "C26" /\ ~IsNull(e.ref) ->
            IF ~IsNull(e.o.size) THEN ResampledHistory(At0(pre, e.ref), r, e.o.size)
            ELSE SameHistory(y, At0(pre, e.ref).steps, steps, e.prefix, e.o.tol)
       [] c = "C27" -> WallBalance(T, M, y, steps)
       [] c = "C36" /\ ~IsNull(e.rel) ->
            HeightsInUnits(At0(pre, e.rel.mat), T, e.rel.lam) \cup
            InOtherUnits(Documented(At0(pre, e.rel.mat), At0(pre, e.rel.mesh), At0(pre, e.rel.run).y, e.rel.o, pi4),
                         At0(pre, e.rel.run).steps, steps, e.rel.lam, e.rel.mu, e.rel.o.tol)
       [] c = "C38" -> WorkLaw(T, M, y, steps)
       [] c = "C28" -> IF IsNull(e.ref) THEN History(T, M, y, r, e.o) \cup Matrices(T, M, r.y, e.o, pi4)
                       ELSE ResampledHistory(At0(pre, e.ref), r, e.o.size)
       [] OTHER -> {}

ExportClauses(c, e, pre, post) ==
  CASE c = "C30" /\ e.op = "VtkFiber" -> ExportedFiber(Content(e.shape))
    [] c = "C30" /\ e.op = "VtkMat"   -> ExportedMat(At0(pre, e.mat), Content(e.shape), e.np)
    [] c = "C31" /\ e.op = "VtkMesh"  -> ExportedMesh(At0(pre, e.mat), At0(pre, e.mesh), Content(e.shape))
    [] c = "C32" /\ e.op = "VtkMesh"  ->
         IF e.periodic THEN PeriodicExport(At0(pre, e.mat), Content(e.shape))
         ELSE UnclippedExport(At0(pre, e.mat), Content(e.shape))
    [] OTHER -> {}

(* C40, C41: the histories of a part alone and of the whole are both recorded.*)
PartClauses(e, pre) ==
  LET a(x) == At0(pre, e.part[x])  b(x) == At0(pre, e.whole[x])
      ran == ~IsNull(e.o)
  IN  PartLaw(a("mat"), a("net"), a("stack"), a("mesh"), IF ran THEN a("run") ELSE "null",
              b("mat"), b("net"), b("stack"), b("mesh"), IF ran THEN b("run") ELSE "null", e.map, e.rev, e.o)

(* C39: an attempt of a call whose arguments may be ill-formed.  e.args are  *)
(* the tables which it takes; e.sane: they come from the library, or were  *)
(* only changed in ways that do not matter.  A refused call does nothing.  *)
Refusal(e, pre, post) ==
  LET v(a) == Verdicts(a.cls, At0(pre, a.name))
      ill  == {k \in DOMAIN e.args : "ok" \notin v(e.args[k])}
      free == CASE e.stage = "Stack"                    -> {e.args[1].name}
                [] e.stage \in {"Constraint", "Solve"} -> {e.args[2].name}
                [] OTHER                                -> {}
  IN  UNION {
    Chk("ill-formed argument of " \o e.stage \o " is accepted", ill # {} => ~IsNull(e.exc)),
    Chk("not the documented error of " \o e.stage,
        (ill # {} /\ ~IsNull(e.exc)) => \E k \in ill : e.exc \in v(e.args[k])),
    Chk("well-formed arguments of " \o e.stage \o " are refused", (ill = {} /\ e.sane) => IsNull(e.exc)),
    Chk("refused call of " \o e.stage \o " has an effect", ~IsNull(e.exc) => post = pre),
    Chk("effect on other objects", \A x \in (DOMAIN pre) \ free : post[x] = pre[x]) }

(* Clauses of property c which the call e violates.                        *)
Violated(c, e, pre, post, pi4) ==
  IF e.op = "Attempt" THEN IF c = "C39" THEN Refusal(e, pre, post) ELSE {}
  ELSE IF ~IsNull(e.exc) THEN {"raises " \o e.exc}
  ELSE (IF c = "C34" THEN Frame(e, pre, post) ELSE {}) \cup
  CASE e.op = "Mat" -> IF c = "C01" THEN Generated(e.p, At0(post, e.out)) ELSE {}
    [] e.op = "Net" -> NetClauses(c, e, pre, post)
    [] e.op = "Stack" -> StackClauses(c, e, pre, post)
    [] e.op = "StackSystem" -> IF c = "C15" THEN StackSystem(At0(pre, e.mat), At0(pre, e.net), e.y, pi4) ELSE {}
    [] e.op = "StackForces" -> IF c = "C15" THEN StackForces(At0(pre, e.mat), At0(pre, e.net), e.s, pi4) ELSE {}
    [] e.op = "Mesh" -> MeshClauses(c, e, pre, post)
    [] e.op \in {"Stiffness", "Constraint"} -> SystemClauses(c, e, pre, post, pi4)
    [] e.op = "Solve" -> SolveClauses(c, e, pre, post, pi4)
    [] e.op = "Part" -> IF c = (IF \E i \in DOMAIN e.rev : e.rev[i] THEN "C41" ELSE "C40") THEN PartClauses(e, pre) ELSE {}
    [] e.op = "Plot" -> IF c = "C37" THEN PlotLaw(At0(pre, e.stiff).K, At0(pre, e.cont).C, e) ELSE {}
    [] e.op = "Interpolate" -> IF c = "C29" THEN Interpolation(e) ELSE {}
    [] e.op \in {"VtkFiber", "VtkMat", "VtkMesh"} -> ExportClauses(c, e, pre, post)
    [] e.op = "Check" -> IF c \in {"C03", "C09", "C18", "C35"} THEN Verdict(e) ELSE {}
    [] e.op = "Wrap" -> IF c = "C35" THEN SameWrapped(At0(pre, e.of), At0(post, e.out), e.cls) ELSE {}
    [] e.op = "Default" -> IF c = "C35" THEN {x \in {"not empty: " \o e.what} : ~e.empty} ELSE {}
    [] OTHER -> {}
=============================================================================
