----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Sessions of a user with several live objects, in symbols.               *)
(*                                                                         *)
(* The content of every object is a term: the call which made it, applied  *)
(* to the contents which its arguments had at that time.  A call writes    *)
(* its result, and nothing else but the heights of a fiber set which is    *)
(* stacked, and the thicknesses of a mesh which is assembled or solved.    *)
(* Whatever happened before, an object with the same term has the same     *)
(* content: the library keeps no hidden state, and objects share none.     *)
(*                                                                         *)
(* Histories are printed with the terms of all objects after every step,   *)
(* and replayed with the real library.  Module Trace checks that the term  *)
(* determines the content, over all sessions of the process.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth

VARIABLES heap,   \* name -> [kind, term, thick, of, linked]
          count,  \* number of objects so far
          hist,   \* << step, terms of all objects >>
          done
vars == << heap, count, hist, done >>

(* thick: content of the fiber set whose thicknesses a mesh carries, or "" *)
(* of:    number of the fiber set which the object belongs to              *)
(* linked: a wrapped object and its wrapper may share columns              *)
Obj(kind, term, of) == [kind |-> kind, term |-> term, thick |-> "", of |-> of, linked |-> FALSE]
T(f, a) == f \o "(" \o a \o ")"
T2(f, a, b) == f \o "(" \o a \o ", " \o b \o ")"
Full(o) == IF o.thick = "" THEN o.term ELSE T2("thick", o.thick, o.term)
Terms(h) == [x \in DOMAIN h |-> Full(h[x])]
Put(h, name, o) == [k \in {name} |-> o] @@ h
Are(K) == {x \in DOMAIN heap : heap[x].kind \in K}
(* The fiber set which x belongs to, if it is still alive.                 *)
Mats(x) == {m \in Are({"mat"}) : heap[m].of = heap[x].of}
Fresh == "o" \o ToString(count)

Did(post, step) ==
  /\ heap' = post /\ count' = count + 1
  /\ hist' = Append(hist, << step, Terms(post) >>) /\ done' = FALSE

Give(name, c) == Did(Put(heap, name, Obj("mat", T("fibers", c), count)), << "give", name, c >>)
Net(m, p) == Did(Put(heap, Fresh, Obj("net", T2("net", heap[m].term, p), heap[m].of)), << "net", Fresh, m, p >>)
Stack(m, n, t) ==
  LET s == T2("stack", heap[m].term, heap[n].term) IN
  Did(Put([heap EXCEPT ![m].term = T2("settled", heap[m].term, heap[n].term)], Fresh,
          Obj("stack", T2("within", s, t), heap[m].of)),
      << "stack", Fresh, m, n, t >>)
Mesh(n) == Did(Put(heap, Fresh, Obj("mesh", T("mesh", heap[n].term), heap[n].of)), << "mesh", Fresh, n >>)
Wrap(x) == Did(Put([heap EXCEPT ![x].linked = TRUE], Fresh, [heap[x] EXCEPT !.linked = TRUE]), << "wrap", Fresh, x >>)
Edit(x, how) == Did([heap EXCEPT ![x].term = T2("edited", Full(heap[x]), how), ![x].thick = ""], << "edit", x, how >>)
Note(x) == Did([heap EXCEPT ![x].term = T("noted", Full(heap[x])), ![x].thick = ""], << "note", x >>)
Stiffness(m, M) ==
  Did(Put(heap, Fresh, Obj("system", T2("stiffness", heap[m].term, heap[M].term), heap[m].of)), << "stiffness", Fresh, m, M >>)
Constraint(m, M) ==
  Did(Put([heap EXCEPT ![M].thick = heap[m].term], Fresh,
          Obj("system", T2("constraint", heap[m].term, heap[M].term), heap[m].of)), << "constraint", Fresh, m, M >>)
Solve(m, M) ==
  Did(Put([heap EXCEPT ![M].thick = heap[m].term], Fresh,
          Obj("run", T2("run", heap[m].term, heap[M].term), heap[m].of)), << "solve", Fresh, m, M >>)
Drop(x) == Did([y \in DOMAIN heap \ {x} |-> heap[y]], << "drop", x >>)

Init ==
  /\ heap = [m |-> Obj("mat", "settled(fibers(a), net(fibers(a), open))", 0),
             N |-> Obj("net", "net(fibers(a), open)", 0),
             S |-> Obj("stack", "within(stack(fibers(a), net(fibers(a), open)), all)", 0),
             M |-> Obj("mesh", "mesh(within(stack(fibers(a), net(fibers(a), open)), all))", 0)]
  /\ count = 1 /\ hist = << >> /\ done = FALSE
Free(x) == ~heap[x].linked
Next ==
  IF Len(hist) = Depth THEN ~done /\ done' = TRUE /\ UNCHANGED << heap, count, hist >>
  ELSE
     \/ \E c \in {"a", "b"} : Give("k", c) \/ Give("m", c)
     \/ \E m \in Are({"mat"}) : \E p \in {"open", "periodic"} : Net(m, p)
     \/ \E n \in Are({"net", "stack"}) : \E m \in Mats(n) : Free(m) /\ \E t \in {"all", "near"} : Stack(m, n, t)
     \/ \E n \in Are({"net", "stack"}) : Mesh(n)
     \/ \E x \in Are({"mat", "net", "stack", "mesh"}) :
          \/ Wrap(x)
          \/ Note(x)
          \/ Free(x) /\ \E how \in {"value", "column"} : Edit(x, how)
     \/ \E M \in Are({"mesh"}) : \E m \in Mats(M) :
          Stiffness(m, M) \/ (Free(M) /\ (Constraint(m, M) \/ Solve(m, M)))
     \/ \E x \in DOMAIN heap : x \notin {"m"} /\ Drop(x)

(* What a step may change.                                                 *)
Touched(s) == CASE s[1] \in {"give", "edit", "note", "drop"} -> {s[2]}
                [] s[1] = "stack"                            -> {s[2], s[3]}
                [] s[1] \in {"constraint", "solve"}          -> {s[2], s[4]}
                [] OTHER                                     -> {s[2]}
Framed == [][hist' # hist => LET s == hist'[Len(hist')][1] IN
             \A x \in (DOMAIN heap \cup DOMAIN heap') \ Touched(s) :
               x \in DOMAIN heap /\ x \in DOMAIN heap' /\ Full(heap[x]) = Full(heap'[x])]_vars
(* Only meshes carry thicknesses; wrapped objects keep their contents.     *)
Kinds == \A x \in DOMAIN heap : heap[x].thick = "" \/ heap[x].kind = "mesh"
Emit == done => PrintT("CASE " \o ToString(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
