------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The parameter panel of the notebooks: a state machine.                  *)
(*                                                                         *)
(* state: val (value of every field) and on (position of every switch).    *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Plain    == {"n", "length", "width", "thickness", "size", "theta", "periodic",
             "packing", "itermax", "tol", "coupling", "verbose"}
Moduli   == {"shear", "tensile"}
Optional == {"seed", "threshold", "lmin", "lmax", "interp_size"}
Switched == Moduli \cup Optional
Names    == Plain \cup Switched
Flags    == {"periodic", "verbose"}

Lower == [theta |-> RInt(0), itermax |-> RInt(1), tol |-> Q(1, 1000000000) \otimes Q(1, 10)]
Upper == [theta |-> RInt(1), itermax |-> RInt(1000000), tol |-> Q(1, 10)]
Limited(name, v) == IF name \in DOMAIN Lower THEN RMin(RMax(v, Lower[name]), Upper[name]) ELSE v

(* The value which means that the switch is off.                           *)
OffValue(name, v) == IF name \in Moduli THEN REq(v, RInf) ELSE IsNull(v)

SetOne(st, name, v) ==
  IF name \in Switched
  THEN IF OffValue(name, v) THEN [st EXCEPT !.on[name] = FALSE]
       ELSE [val |-> [st.val EXCEPT ![name] = v], on |-> [st.on EXCEPT ![name] = TRUE]]
  ELSE [st EXCEPT !.val[name] = Limited(name, v)]

RECURSIVE SetAll(_, _)
SetAll(st, pairs) ==
  IF pairs = << >> THEN st
  ELSE SetAll(SetOne(st, Head(pairs)[1], Head(pairs)[2]), Tail(pairs))

(* One edit: a sequence of assignments, a click on a switch or a new value *)
(* typed into a field.                                                     *)
Edited(st, e) ==
  CASE e.kind = "set"    -> SetAll(st, e.pairs)
    [] e.kind = "switch" -> [st EXCEPT !.on[e.name] = e.value]
    [] e.kind = "field"  -> [st EXCEPT !.val[e.name] = Limited(e.name, e.value)]
    [] OTHER             -> st

(* What a reader gets; pi: the number pi.                                  *)
Reads(st, name, pi) ==
  IF name = "theta" THEN st.val[name] \otimes pi
  ELSE IF name \in Moduli THEN IF st.on[name] THEN st.val[name] ELSE RInf
  ELSE IF name \in Optional THEN IF st.on[name] THEN st.val[name] ELSE "null"
  ELSE IF name = "itermax" THEN RInt(RFloor(st.val[name]))
  ELSE st.val[name]

SameValue(name, a, b) ==
  IF name \in Flags THEN a = b
  ELSE IF IsNull(a) \/ IsNull(b) THEN IsNull(a) /\ IsNull(b)
  ELSE IF IsFin(a) /\ IsFin(b)
  THEN RAbs(a \ominus b) \preceq (Q(1, 1000000000) \otimes RMax(RAbs(a), RAbs(b)))
  ELSE REq(a, b) \/ (IsNaN(a) /\ IsNaN(b))     \* (0 / 0 in a field that is switched off)
Fails(name, cond) == IF cond THEN {} ELSE {name}
Observed(st, e, pi) ==
  UNION {
    Fails("settings", DOMAIN e.read = Names /\ DOMAIN e.kw = Names),
    Fails("value read", \A k \in Names \cap DOMAIN e.read : SameValue(k, e.read[k], Reads(st, k, pi))),
    Fails("value unpacked", \A k \in Names \cap DOMAIN e.kw : SameValue(k, e.kw[k], Reads(st, k, pi))),
    \* also those which are switched off keep what was typed or set last
    Fails("fields", \A k \in Names : SameValue(k, e.fields[k], st.val[k])),
    Fails("switches", \A k \in Switched : e.switches[k] = st.on[k]),
    Fails("disabled fields", \A k \in Switched : e.disabled[k] = ~st.on[k]),
    Fails("type of an integer", e.intType) }

(* Initial state from the arguments, with the fields of the switched-off   *)
(* settings as they are displayed.                                         *)
Initial(args, shown) ==
  [val |-> [k \in Names |->
              IF k \in Switched /\ (OffValue(k, args[k])) THEN shown[k] ELSE Limited(k, args[k])],
   on  |-> [k \in Switched |-> ~OffValue(k, args[k])]]
=============================================================================
