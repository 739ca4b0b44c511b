------------------------------ MODULE MC_Stage ------------------------------
(***************************************************************************)
(* A finished chain (fiber set m, network N, stack S, mesh M) whose tables *)
(* are damaged and mended, while every step of the chain is attempted      *)
(* again.  A step is refused exactly when it is given a damaged table,     *)
(* with the error of the damage, and then it has no effect.                *)
(* Histories are printed, and replayed with the real library.              *)
(***************************************************************************)
EXTENDS Pipeline, IOUtils
Same(x) == x
F == INSTANCE Fibermat WITH Content <- Same
CONSTANTS Depth
VARIABLES heap, hurt, hist, bad
vars == << heap, hurt, hist, bad >>
None == "null"

M0 == FiberTable(<< << RInt(4), RInt(1), RInt(1), RInt(0), RInt(0), RInt(0), RInt(1), RInt(0), RInt(0), RInt(2), RInt(9) >>,
                    << RInt(4), RInt(1), RInt(1), RInt(1), RInt(0), RInt(1), RInt(0), RInt(1), RInt(0), RInt(2), RInt(9) >> >>,
                 RInt(10))
N0 == TLCEval(NetOf(M0, FALSE))
T0 == TLCEval(Settled(M0, N0))
S0 == TLCEval(StackOf(T0, N0, None))
Chain == [m |-> T0, N |-> N0, S |-> S0, M |-> TLCEval(MeshOf(S0))]

(*----------------------------------------------------------------- damages *)
Kinds == {"column", "attribute", "labels", "value"}
ErrOf == [column |-> "KeyError", attribute |-> "AttributeError", labels |-> "IndexError", value |-> "ValueError"]
HurtColumn == [m |-> "b", N |-> "sB", S |-> "sB", M |-> "beam"]
HurtAttribute == [m |-> "size", N |-> "periodic", S |-> "size", M |-> "n"]
Damaged(x, kind) ==
  LET t == heap[x] IN
  CASE kind = "column"    -> LET k == HurtColumn[x] IN
         [t EXCEPT !.cols = SelectSeq(t.cols, LAMBDA a : a # k), !.c = [a \in (DOMAIN t.c) \ {k} |-> t.c[a]],
                   !.dtype = [a \in (DOMAIN t.dtype) \ {k} |-> t.dtype[a]]]
    [] kind = "attribute" -> [t EXCEPT !.attrs = [a \in (DOMAIN t.attrs) \ {HurtAttribute[x]} |-> t.attrs[a]]]
    [] kind = "labels"    -> [t EXCEPT !.index[1] = 7]
    [] kind = "value"     -> CASE x = "m" -> [t EXCEPT !.c["l"][2] = RInt(0)]
                               [] x = "M" -> [t EXCEPT !.c["constraint"][1] = 3]
                               [] OTHER   -> [t EXCEPT !.c["A"][1] = -1]

(*------------------------------------------------------------------- steps *)
Arg(cls, x) == [cls |-> cls, name |-> x]
Stages == [Net |-> << Arg("Mat", "m") >>, Stack |-> << Arg("Mat", "m"), Arg("Net", "N") >>,
           Restack |-> << Arg("Mat", "m"), Arg("Net", "S") >>,
           StackSystem |-> << Arg("Mat", "m"), Arg("Net", "N") >>, StackForces |-> << Arg("Mat", "m"), Arg("Net", "S") >>,
           Mesh |-> << Arg("Net", "S") >>, NetMesh |-> << Arg("Net", "N") >>,
           Stiffness |-> << Arg("Mat", "m"), Arg("Mesh", "M") >>, Constraint |-> << Arg("Mat", "m"), Arg("Mesh", "M") >>,
           Solve |-> << Arg("Mat", "m"), Arg("Mesh", "M") >>, VtkMat |-> << Arg("Mat", "m") >>,
           VtkMesh |-> << Arg("Mat", "m"), Arg("Mesh", "M") >>]
StageName(s) == CASE s = "Restack" -> "Stack" [] s = "NetMesh" -> "Mesh" [] OTHER -> s
IsHurt(s) == {k \in DOMAIN Stages[s] : hurt[Stages[s][k].name].kind # None}
Event(s, exc) == [op |-> "Attempt", stage |-> StageName(s), args |-> Stages[s], exc |-> exc, sane |-> IsHurt(s) = {}, out |-> None]
Effect(s) ==
  CASE s \in {"Stack", "Restack"}      -> [heap EXCEPT !.m = Settled(heap.m, heap[Stages[s][2].name])]
    [] s \in {"Constraint", "Solve"}   -> [heap EXCEPT !.M = WithThickness(heap.m, heap.M)]
    [] OTHER                           -> heap
Attempt(s) ==
  /\ \E exc \in IF IsHurt(s) = {} THEN {None} ELSE {ErrOf[hurt[Stages[s][k].name].kind] : k \in IsHurt(s)} :
       LET post == IF exc = None THEN Effect(s) ELSE heap IN
       /\ heap' = TLCEval(post)
       /\ bad' = F!Violated("C39", Event(s, exc), heap, post, Q(1, 1))
  /\ hist' = Append(hist, << "try", s >>) /\ hurt' = hurt
Damage(x, kind) ==
  /\ hurt[x].kind = None
  /\ heap' = TLCEval([heap EXCEPT ![x] = Damaged(x, kind)])
  /\ hurt' = [hurt EXCEPT ![x] = [kind |-> kind, was |-> heap[x]]]
  /\ hist' = Append(hist, << "damage", x, kind >>) /\ bad' = {}
Mend(x) ==
  /\ hurt[x].kind # None
  /\ heap' = [heap EXCEPT ![x] = hurt[x].was]
  /\ hurt' = [hurt EXCEPT ![x] = [kind |-> None, was |-> None]]
  /\ hist' = Append(hist, << "mend", x >>) /\ bad' = {}

Init == heap = Chain /\ hurt = [x \in DOMAIN Chain |-> [kind |-> None, was |-> None]] /\ hist = << >> /\ bad = {}
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in DOMAIN Stages : Attempt(s)
           \/ \E x \in DOMAIN Chain : Mend(x) \/ \E k \in Kinds : Damage(x, k)

Sound == bad = {}
ClsOf == [m |-> "Mat", N |-> "Net", S |-> "Stack", M |-> "Mesh"]
(* Tables are well-formed unless they are damaged, and then not.           *)
Health == \A x \in DOMAIN heap :
  F!Verdicts(ClsOf[x], heap[x]) = {IF hurt[x].kind = None THEN "ok" ELSE ErrOf[hurt[x].kind]}
(* Any other outcome would be noticed.                                     *)
Sharp == Len(hist) < Depth => \A s \in DOMAIN Stages :
  LET right == IF IsHurt(s) = {} THEN {None} ELSE {ErrOf[hurt[Stages[s][k].name].kind] : k \in IsHurt(s)}
  IN  /\ \A exc \in {None, "KeyError", "AttributeError", "IndexError", "TypeError", "ValueError"} \ right :
           F!Violated("C39", Event(s, exc), heap, heap, Q(1, 1)) # {}
      /\ (None \notin right) => \A x \in DOMAIN heap : \A exc \in right :
           F!Violated("C39", Event(s, exc), heap, [heap EXCEPT ![x] = M0 @@ [more |-> 1]], Q(1, 1)) # {}
Emit == (Len(hist) = Depth /\ hist[Depth][1] = "try") => PrintT("CASE " \o ToString(hist))
=============================================================================
