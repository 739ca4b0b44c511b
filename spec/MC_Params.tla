----------------------------- MODULE MC_Params ------------------------------
(***************************************************************************)
(* One set of parameters for the whole chain (C42).                        *)
(*                                                                         *)
(* The user keeps all parameters in one place (a dictionary, or the panel) *)
(* and hands all of them to every step; or only those which belong to the  *)
(* step; or leaves out those which have their documented default; or adds  *)
(* words that no step knows, and parameters of other steps.  It is all the *)
(* same: a step depends on its own parameters only, at the time of the     *)
(* call, and omitted ones have the documented default.                     *)
(*                                                                         *)
(* As in module MC_Session the contents of the objects are terms, here     *)
(* with the parameters that made them, given by definitions; module Trace  *)
(* checks that terms determine contents, in all histories which are        *)
(* replayed.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth,     \* number of actions
          Turns      \* parameters are set to their other value in blocks of this many

(* name, own step, documented default, values of the histories (in the     *)
(* notation of the replay); "-": there is none (or it is not used)         *)
Table == <<
  << "n",         "Mat",       "-",     "5",    "4"    >>,
  << "length",    "Mat",       "25",    "25",   "35"   >>,
  << "width",     "Mat",       "1",     "1",    "2"    >>,
  << "thickness", "Mat",       "1",     "1",    "0.5"  >>,
  << "size",      "Mat",       "50",    "50",   "40"   >>,
  << "theta",     "Mat",       "pi",    "pi",   "pi/2" >>,
  << "shear",     "Mat",       "1",     "1",    "3"    >>,
  << "tensile",   "Mat",       "inf",   "100",  "400"  >>,
  << "seed",      "Mat",       "0",     "0",    "2"    >>,
  << "periodic",  "Net",       "yes",   "yes",  "no"   >>,
  << "threshold", "Stack",     "none",  "none", "3"    >>,
  << "lmin",      "Stiffness", "none",  "0.01", "1"    >>,
  << "lmax",      "Stiffness", "none",  "none", "30"   >>,
  << "coupling",  "Stiffness", "1",     "0.99", "0.9"  >>,
  << "packing",   "Solve",     "1",     "1.2",  "1.5"  >>,
  << "itermax",   "Solve",     "1000",  "1000", "10"   >>,
  << "tol",       "Solve",     "1e-6",  "1e-6", "1e-8" >>,
  << "interp_size", "Solve",   "none",  "none", "7"    >>,
  << "verbose",   "Progress",  "yes",   "no",   "yes"  >> >>
Steps == {"Mat", "Net", "Stack", "Mesh", "Stiffness", "Constraint", "Solve"}
(* The solver hands parameters on to the matrices.                         *)
Own == [s \in Steps |-> {i \in DOMAIN Table : Table[i][2] = s \/ (s = "Solve" /\ Table[i][2] = "Stiffness")}]
Owns(s) == Own[s]
List == [s \in Steps |-> {i \in DOMAIN Table : i \in Owns(s) \/ (s = "Solve" /\ Table[i][2] = "Progress")}]
Listed(s) == List[s]

VARIABLES panel,  \* parameter -> 1 or 2
          heap,   \* name -> << content, thicknesses >>, as numbers of definitions
          defs,   \* << call, definitions of the arguments, own parameters >>
          hist, done
vars == << panel, heap, defs, hist, done >>

Value(i, pn) == Table[i][3 + pn[i]]
Entry(i, pn) == << Table[i][1], Value(i, pn) >>
RECURSIVE Pick(_, _, _)
Pick(I, pn, k) == IF k > Len(Table) THEN << >>
                  ELSE (IF k \in I THEN << Entry(k, pn) >> ELSE << >>) \o Pick(I, pn, k + 1)

Def(s, args) == << s, args, Pick(Owns(s), panel, 1) >>
Put(h, name, d) == [k \in {name} |-> << d, 0 >>] @@ h
d(x) == heap[x][1]
new == Len(defs) + 1
(* The definitions which a step adds, and the heap after it.               *)
Added(s) ==
  CASE s = "Mat"   -> << Def(s, << >>) >>
    [] s = "Net"   -> << Def(s, << d("m") >>) >>
    [] s = "Mesh"  -> << Def(s, << d("S") >>) >>
    [] s = "Stack" -> << Def(s, << d("m"), d("N") >>), << "settled", << d("m"), d("N") >>, << >> >> >>
    [] OTHER       -> << Def(s, << d("m"), d("M") >>) >>
(* Assembling contacts and solving write the thicknesses of the mesh.      *)
Thick == [heap EXCEPT !["M"] = << d("M"), d("m") >>]
Effect(s) ==
  CASE s = "Mat"        -> [k \in {"m"} |-> << new, 0 >>]
    [] s = "Net"        -> Put(heap, "N", new)
    [] s = "Stack"      -> Put(Put(heap, "m", new + 1), "S", new)
    [] s = "Mesh"       -> Put(heap, "M", new)
    [] s = "Stiffness"  -> Put(heap, "K", new)
    [] s = "Constraint" -> Put(Thick, "C", new)
    [] s = "Solve"      -> Put(Thick, "r", new)
Needs(s) == CASE s = "Mat" -> {} [] s = "Net" -> {"m"} [] s = "Stack" -> {"m", "N"} [] s = "Mesh" -> {"S"}
              [] OTHER -> {"m", "M"}
(* How parameters are passed.                                              *)
(*   all       everything which is in the panel                            *)
(*   own       those of the step                                           *)
(*   few       those of the step which differ from their default           *)
(*   places    those of the step, without their names                      *)
(*   strange   those of the step, other values for those of other steps,   *)
(*             and unknown words                                           *)
Ways == {"all", "own", "few", "places", "strange"}
Flip(pn) == [i \in DOMAIN pn |-> 3 - pn[i]]
Passed(s, way) ==
  CASE way \in {"own", "places"} -> Pick(Listed(s), panel, 1)
    [] way = "few"     -> Pick({i \in Listed(s) : Value(i, panel) # Table[i][3]}, panel, 1)
    [] way = "strange" -> Pick(Listed(s), panel, 1)
                          \o Pick(DOMAIN Table \ Listed(s), Flip(panel), 1)
                          \o << << "colour", "none" >>, << "hello", "1" >> >>
    [] OTHER -> << >>
Turn(I) ==
  /\ panel' = [i \in DOMAIN panel |-> IF i \in I THEN 3 - panel[i] ELSE panel[i]]
  /\ heap' = heap /\ defs' = defs
  /\ hist' = Append(hist, << "set", Pick(I, panel', 1), "", heap >>)
Do(s, way) ==
  /\ Needs(s) \subseteq DOMAIN heap
  /\ panel' = panel
  /\ heap' = Effect(s) /\ defs' = defs \o Added(s)
  /\ hist' = Append(hist, << s, Passed(s, way), way, Effect(s) >>)

Init == panel = [i \in DOMAIN Table |-> 1] /\ heap = [x \in {} |-> << 0, 0 >>] /\ defs = << >> /\ hist = << >> /\ done = FALSE
(* The chain is run once, and then anything happens.                       *)
First == << "Mat", "Net", "Stack", "Mesh" >>
Blocks == {{i, ((i + Turns - 1) % Len(Table)) + 1} : i \in DOMAIN Table}
Next ==
  IF Len(hist) = Depth + 4 THEN ~done /\ done' = TRUE /\ UNCHANGED << panel, heap, defs, hist >>
  ELSE
  /\ done' = FALSE
  /\ IF Len(hist) < 4 THEN Do(First[Len(hist) + 1], "all")
     ELSE \/ \E I \in Blocks : Turn(I)
          \/ \E s \in Steps \ {"Mat"} : \E way \in Ways : Do(s, way)
          \/ \E way \in Ways : Do("Mat", way)

(* Exactly the parameters which belong to a step show in its result.       *)
ASSUME \A s \in Steps : \A i \in DOMAIN Table : LET pn == [k \in DOMAIN Table |-> 1] IN
         (Pick(Owns(s), [pn EXCEPT ![i] = 2], 1) = Pick(Owns(s), pn, 1)) = (i \notin Owns(s))
(* What is passed, completed by the defaults, are the own parameters.      *)
Complete(s, way) == way = "all" \/
  LET P == Passed(s, way) IN
  \A i \in Owns(s) : \/ \E k \in DOMAIN P : P[k] = Entry(i, panel)
                     \/ Value(i, panel) = Table[i][3] /\ \A k \in DOMAIN P : P[k][1] # Table[i][1]
Enough == (hist # << >> /\ hist[Len(hist)][1] = "set") => \A s \in Steps : \A way \in Ways : Complete(s, way)
Emit == done => PrintT("CASE " \o ToString(<< hist, defs >>))
Spec == Init /\ [][Next]_vars
=============================================================================
