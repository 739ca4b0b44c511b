------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions against the specification.            *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds executions of    *)
(* the real library: a sequence of calls (events), with the heap after     *)
(* each call, and the contents of the objects.  Every behaviour of this    *)
(* module is the recorded execution; at every call the clauses of the      *)
(* property CLAIM are evaluated, and violated ones are printed.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Rat
S == INSTANCE Settings

Data   == RatJson(IOEnv.TRACE)
Claim  == IOEnv.CLAIM
Events == Data.events
Obj(k) == Data.objs[k]
F == INSTANCE Fibermat WITH Content <- Obj

VARIABLES
  i,      \* number of events so far
  heap,   \* name of every live object -> number of its content
  made,   \* generations so far: << parameters, content >> (event numbers)
  memo,   \* calls so far: << key, content of the result >>
  st,     \* state of the settings panel
  syms    \* contents which belong to the terms of module MC_Session
vars == << i, heap, made, memo, st, syms >>

Empty == [x \in {} |-> 0]
NoSettings == [val |-> Empty, on |-> Empty]

(* Clauses which relate a call to the earlier ones.                        *)
Reproducible(e) ==
  IF Claim # "C02" \/ e.op # "Mat" \/ ~IsNull(e.exc) THEN {}
  ELSE UNION {F!Related(Events[j].p, Obj(Events[j].heap[Events[j].out]), e.p, Obj(e.heap[e.out])) : j \in made}
Deterministic(e) ==
  IF Claim # "C34" \/ ~IsNull(e.exc) \/ IsNull(e.out) \/ IsNull(e.key) THEN {}
  ELSE F!Chk("equal calls, different results: " \o e.op,
             \A m \in memo : m[1] = F!Key(e, heap) => m[2] = e.heap[e.out])
(* The term of an object determines its content, in all sessions.          *)
Symbolic(e) ==
  IF e.op # "Terms" THEN {}
  ELSE LET live == DOMAIN e.terms IN
       UNION { F!Chk("objects of the model and of the library differ", live = DOMAIN e.heap),
               {"the history decides on: " \o e.terms[x] :
                  x \in {x \in live \cap DOMAIN e.heap :
                           \/ \E y \in live \cap DOMAIN e.heap : e.terms[y] = e.terms[x] /\ e.heap[y] # e.heap[x]
                           \/ e.terms[x] \in DOMAIN syms /\ syms[e.terms[x]] # e.heap[x]}} }
NewTerms(e) ==
  LET live == {x \in DOMAIN e.terms \cap DOMAIN e.heap : e.terms[x] \notin DOMAIN syms} IN
  [t \in {e.terms[x] : x \in live} |-> e.heap[CHOOSE x \in live : e.terms[x] = t]]
(* The same call on the same contents in a process of its own: a call      *)
(* depends on its arguments only, whatever was called before.              *)
Alone(e) ==
  IF Claim # "C34" \/ "alone" \notin DOMAIN e \/ ~IsNull(e.exc) THEN {}
  ELSE UNION {
    F!Chk("alone raises: " \o e.op, IsNull(e.alone.exc)),
    F!Chk("alone, a different result: " \o e.op,
          (IsNull(e.alone.exc) /\ ~IsNull(e.out)) => e.alone.out = e.heap[e.out]),
    F!Chk("alone, a different effect: " \o e.op,
          \A k \in DOMAIN e.alone.args : e.alone.args[k][2] = e.heap[e.alone.args[k][1]]) }
Panel(e) ==
  IF e.op # "Settings" THEN {}
  ELSE IF ~IsNull(e.exc) THEN {"raises " \o e.exc}
  ELSE IF e.edit.kind = "init"
  THEN S!Observed(S!Initial(e.edit.args, e.edit.shown), e, Data.pi)
  ELSE S!Observed(S!Edited(st, e.edit), e, Data.pi)

Bad(e) ==
  IF e.op = "Start" THEN {}
  ELSE IF e.op = "Settings" THEN Panel(e)
  ELSE F!Violated(Claim, e, heap, e.heap, Data.pi4) \cup Reproducible(e) \cup Deterministic(e) \cup Alone(e) \cup Symbolic(e)

Init == i = 0 /\ heap = Empty /\ made = {} /\ memo = {} /\ st = NoSettings /\ syms = Empty
Next ==
  /\ i < Len(Events)
  /\ LET e == Events[i + 1]
         bad == Bad(e)
     IN  /\ bad # {} => PrintT("FAIL " \o ToString(<< i + 1, bad >>))
         /\ i' = i + 1
         /\ heap' = e.heap
         /\ made' = IF e.op = "Start" THEN {}
                    ELSE IF e.op = "Mat" /\ IsNull(e.exc) THEN made \cup {i + 1} ELSE made
         /\ memo' = IF e.op = "Start" THEN {}
                    ELSE IF Claim = "C34" /\ IsNull(e.exc) /\ ~IsNull(e.out) /\ ~IsNull(e.key)
                    THEN memo \cup {<< F!Key(e, heap), e.heap[e.out] >>} ELSE memo
         /\ st' = IF e.op # "Settings" \/ ~IsNull(e.exc) THEN st
                  ELSE IF e.edit.kind = "init" THEN S!Initial(e.edit.args, e.edit.shown)
                  ELSE S!Edited(st, e.edit)
         /\ syms' = IF e.op = "Terms" THEN TLCEval(NewTerms(e) @@ syms) ELSE syms
  /\ (i + 1 = Len(Events)) => PrintT("DONE " \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================
