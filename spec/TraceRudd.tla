------------------------------ MODULE TraceRudd ------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real library against Rudd.       *)
(* The environment gives the trace (TRACE, one JSON event per line) and    *)
(* the property being decided (GATE): each requirement below belongs to    *)
(* some properties and is enforced only when the gate is one of them, so   *)
(* that a violation is reported against the property it breaks.  When a    *)
(* requirement is not enforced the state follows what was observed.        *)
(***************************************************************************)
EXTENDS Rudd, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Log == ndJsonDeserialize(IOEnv.TRACE)
Gate == IOEnv.GATE

VARIABLES l,      \* position in the trace
          id,     \* slot -> node id, or -1
          gh,     \* slot -> digest of the diagram of the node
          enum,   \* enumerations in progress, innermost first
          zomb,   \* ids of references dropped and maybe not yet collected
          sz,     \* slot -> size of the diagram of the node
          rids,   \* identities of the replacers created so far
          cf      \* configuration and last counters of the session

tvars == <<rvars, l, id, gh, sz, enum, zomb, rids, cf>>

-----------------------------------------------------------------------------
(* Enforcement.  Register 1 counts the requirements that were evaluated.   *)
Count == TLCSet(1, TLCGet(1) + 1)
Req(props, name, cond) ==
  IF Gate \notin props THEN TRUE
  ELSE IF cond THEN Count
  ELSE PrintT(<<"REJECTED", l, name>>) /\ FALSE

Line == Log[l]
IsEvent(names) == l <= Len(Log) /\ Line.e \in names /\ l' = l + 1

AllProps == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10",
             "C11","C12","C13","C14","C15","C16","C17","C18","C19","C20"}

-----------------------------------------------------------------------------
(* Counters (C19) and limits (C07), on events that carry them.             *)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
BaseSize == 2 * cf.varnum + 2
Limit == Max2(cf.maxsize, BaseSize)
MaxInc == IF cf.maxinc = -1 THEN 1048576 ELSE cf.maxinc

CountersOK(c) ==
  /\ Req({"C19"}, "used + free = allocated", c.us + c.fr = c.al)
  /\ Req({"C19"}, "free is not negative", c.fr >= 0)
  /\ Req({"C19"}, "produced never decreases", c.pr >= cf.pr)
  /\ Req({"C19"}, "collections never decrease", c.gc >= 0)
  /\ Req({"C19"}, "the table never shrinks", c.al >= cf.al)
  /\ Req({"C19"}, "growth only in a collection", c.al > cf.al => c.gc > 0)
  /\ Req({"C19"}, "growth by at most doubling",
         c.gc > 8 \/ c.al <= cf.al * Pow2[Min2(Max2(c.gc, 0), 8)])
  /\ Req({"C19"}, "growth by at most Maxnodeincrease",
         MaxInc = 0 \/ c.gc > 1000 \/ c.al <= cf.al + c.gc * MaxInc)
  /\ Req({"C19"}, "produced covers the new nodes",
         c.gc > 0 \/ c.pr - cf.pr >= c.us - cf.us)
  /\ Req({"C07"}, "allocated within the limit", ~lim \/ c.al <= Limit)
Counters(c) == /\ CountersOK(c)
               /\ cf' = [cf EXCEPT !.al = c.al, !.pr = c.pr, !.us = c.us, !.gcs = @ + c.gc]

-----------------------------------------------------------------------------
(* A new BDD                                                               *)
TraceInit == /\ l = 1 /\ nv = 0 /\ fn = <<>> /\ err = FALSE /\ reps = <<>> /\ lim = FALSE
             /\ id = <<>> /\ gh = <<>> /\ enum = <<>> /\ zomb = {} /\ sz = <<>> /\ rids = {}
             /\ cf = [varnum |-> 0]
             /\ TLCSet(1, 0)

NewBDD ==
  /\ IsEvent({"New"})
  /\ LET c == Line IN
     /\ Req(AllProps, "New does not panic", c.res # "panic")
     /\ Req(AllProps, "New succeeds", c.res = "ok")
     /\ Req(AllProps, "New leaves the error status clear", ~c.er)
     /\ nv' = c.n /\ lim' = c.lim /\ err' = FALSE
     /\ fn' = [s \in 1..c.S |-> NIL] /\ id' = [s \in 1..c.S |-> -1] /\ gh' = [s \in 1..c.S |-> ""]
     /\ reps' = [k \in 1..c.K |-> <<>>]
     /\ enum' = <<>> /\ zomb' = {} /\ sz' = [s \in 1..c.S |-> 0] /\ UNCHANGED rids
     /\ cf' = [varnum |-> c.varnum, basis |-> c.basis, maxsize |-> c.maxsize, maxinc |-> c.maxinc,
               minfree |-> IF c.minfree = -1 THEN 20 ELSE c.minfree, nodesize |-> c.nodesize,
               al |-> c.al, pr |-> c.pr, us |-> c.us, gcs |-> c.gcs, roots |-> RangeS(c.roots),
               hold |-> {}, sat |-> {}, settled |-> FALSE, loops |-> 0, kern |-> FALSE]
     /\ Req({"C19"}, "used + free = allocated", c.us + c.fr = c.al)
     /\ Req({"C19"}, "at least the requested size",
            c.al >= 2 * c.varnum + 2 /\ (c.lim \/ c.al >= c.nodesize))
     /\ Req({"C07"}, "allocated within the limit", ~c.lim \/ c.al <= Max2(c.maxsize, 2 * c.varnum + 2))

-----------------------------------------------------------------------------
(* Calls that return a node                                                *)
BoolCalls  == {"Not", "Apply", "And", "Or", "Imp", "Equiv", "Ite", "Nested", "Build"}
QuantCalls == {"Exist", "AppEx", "AndExist"}
SetCalls   == {"Makeset", "Makecube"}
VarCalls   == {"Const", "Var", "Low", "High"}
NodeCalls  == BoolCalls \cup QuantCalls \cup SetCalls \cup VarCalls \cup {"Copy", "Replace", "Custom", "Makenode"}

(* The properties for which the result of a call is decisive.              *)
PropsOf(c) ==
  {"C14", "C15", "C08"}
  \cup (IF c.e \in BoolCalls \cup {"Const"} THEN {"C01"} ELSE {})
  \cup (IF c.e \in QuantCalls THEN {"C03"} ELSE {})
  \cup (IF c.e = "Replace" THEN {"C04"} ELSE {})
  \cup (IF c.e \in SetCalls THEN {"C13"} ELSE {})
  \cup (IF c.e \in VarCalls THEN {"C16"} ELSE {})
  \* kernel calls, and what comes after them
  \cup (IF c.e \in {"Custom", "Makenode"} \/ cf.kern THEN {"C18"} ELSE {})
  \* a collection may harm the calls during which it runs, or later ones
  \cup (IF c.gc > 0 \/ cf.gcs > 0 THEN {"C05"} ELSE {})
  \cup (IF lim THEN {"C07"} ELSE {})
  \cup (IF err THEN {"C12"} ELSE {})
  \cup (IF c.nest > 0 THEN {"C17"} ELSE {})

Expect(c) == IF c.e = "Custom" THEN ApplyF(nv, c.op, fn[c.a], fn[c.b]) ELSE Exp(c)
PreT(c) == IF c.e = "Custom" THEN Live(c.a) /\ Live(c.b) ELSE Pre(c)

SetZ(s) == IF fn[s] # NIL /\ id[s] > 1 THEN zomb \cup {id[s]} ELSE zomb

(* The slots whose node is no longer held when the call returns: the one   *)
(* of the result, and those of the operands that the program gave up.      *)
Gone(c) == {c.r} \cup RangeS(c.eat)

Canonical(c, f) ==
  /\ Req({"C02"}, "the constant True is the only tautology", (c.id = 1) <=> (f = U(nv)))
  /\ Req({"C02"}, "the constant False is the only contradiction", (c.id = 0) <=> (f = {}))
  /\ Req({"C02"}, "same function iff same node",
         \A t \in DOMAIN fn : (t \notin Gone(c) /\ Live(t)) => ((fn[t] = f) <=> (id[t] = c.id)))
  /\ Req({"C02"}, "Equal iff same function",
         RangeS(c.eq) = {t \in DOMAIN fn : t \notin Gone(c) /\ Live(t) /\ fn[t] = f})

(* Nodes not in use when every dropped reference has been collected: an    *)
(* operation over nv variables needs less than 2^nv new nodes.             *)
Room == Limit - BaseSize - FoldSeq(LAMBDA x, y : x + y, 0, [s \in DOMAIN fn |-> IF Live(s) THEN sz[s] ELSE 0])

NodeCall ==
  /\ IsEvent(NodeCalls)
  /\ LET c == Line
         P == PropsOf(c)
         f == RangeS(c.fs) IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req(AllProps, "the node observed is a diagram over the variables in use", ~c.frn)
     /\ Req(P, "error status is never cleared", err => c.er)
     /\ Req({"C01", "C13"}, "the slices given are left as they were", ~c.mod)
     /\ PreT(c) =>
        IF c.res = "ok"
        THEN /\ Req(P, "result denotes the expected function", f = Expect(c))
             /\ Req(P, "a successful call leaves the error status unchanged", c.er = err)
             /\ Canonical(c, f)
        ELSE /\ Req(P \cup {"C07"}, "a valid call succeeds",
                    lim \/ (c.e = "Replace" /\ MayFail(c)))
             /\ Req(P \cup {"C07"}, "failure sets the error status", c.er)
             /\ Req({"C07"}, "failure only with the table at its limit",
                    (lim /\ c.al = Limit) \/ (c.e = "Replace" /\ ~NoClash(fn[c.a], Img(RepOf(c)))))
             /\ Req({"C07", "C08"}, "no failure when the operation fits in the nodes that are not in use",
                    ~(cf.settled /\ c.e \in {"Not", "Apply", "Ite"} /\ Room >= Pow2[nv]))
     /\ CountersOK(c)
     /\ cf' = [cf EXCEPT !.al = c.al, !.pr = c.pr, !.us = c.us, !.gcs = @ + c.gc,
                         !.settled = @ /\ c.e \in {"Var", "Const", "Copy"},
                         !.kern = @ \/ c.e \in {"Custom", "Makenode"}]
     /\ sz' = [sz EXCEPT ![c.r] = c.sz]
     /\ fn' = [s \in DOMAIN fn |-> IF s = c.r THEN (IF c.res = "ok" THEN f ELSE NIL) ELSE IF s \in Gone(c) THEN NIL ELSE fn[s]]
     /\ id' = [id EXCEPT ![c.r] = c.id]
     /\ gh' = [gh EXCEPT ![c.r] = c.gh]
     /\ zomb' = UNION {SetZ(s) : s \in Gone(c)}
     /\ err' = (err \/ c.er)
     /\ UNCHANGED <<nv, reps, lim, enum, rids>>

(* A node is observed again.                                               *)
Check ==
  /\ IsEvent({"Check"})
  /\ LET c == Line
         P == {"C05", "C14", "C15", "C18", "C08"} \cup (IF lim THEN {"C07"} ELSE {})
              \cup (IF err THEN {"C12"} ELSE {}) \cup {"C17"} IN
     /\ Live(c.s)
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req(P \cup {"C02"}, "the node observed is a diagram over the variables in use", ~c.frn)
     /\ Req(P, "a held node keeps its identity", c.id = id[c.s])
     /\ Req(P, "a held node keeps its function", RangeS(c.fs) = fn[c.s])
     /\ Req(P, "a held node keeps its diagram", c.gh = gh[c.s])
     /\ Req(P, "error status is never cleared", c.er = err)
     /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb, cf>>

-----------------------------------------------------------------------------
(* Calls that return something else.  They create no node, so they leave   *)
(* the error status and the table alone.                                   *)
InfoProps(c) ==
  CASE c.e = "Label" -> {"C16"}
    [] c.e = "Satcount" -> {"C09"}
    [] c.e = "Scanset" -> {"C13"}
    [] c.e = "Allsat" -> {"C10"}
    [] c.e = "Allnodes" -> {"C11"}
    [] c.e \in {"Print", "Dot"} -> {"C11"}
    [] c.e = "Equal" -> {"C02"}

RECURSIVE Ascending(_)
Ascending(q) == Len(q) < 2 \/ (q[1] < q[2] /\ Ascending(Tail(q)))

AllsatOK(c) ==
  LET f == fn[c.a]
      F == [k \in 1..Len(c.cubes) |-> CubeOf(nv, c.cubes[k])]
      total == UNION {F[k] : k \in 1..Len(F)}
      stopped == c.fail > 0 /\ Len(c.cubes) = c.fail IN
  /\ Req({"C10"}, "entries are -1, 0 or 1, one for each variable",
         /\ ~c.frn
         /\ \A k \in 1..Len(c.cubes) : \A i \in 1..nv : c.cubes[k][i] \in {-1, 0, 1})
  /\ Req({"C10"}, "cubes are disjoint",
         Cardinality(total) = FoldSeq(LAMBDA x, y : Cardinality(x) + y, 0, F))
  /\ Req({"C10"}, "cubes cover only satisfying assignments", total \subseteq f)
  /\ Req({"C10"}, "cubes cover all the satisfying assignments", stopped \/ total = f)
  /\ Req({"C10"}, "no call after an error", c.fail = 0 \/ Len(c.cubes) <= c.fail)
  /\ Req({"C10"}, "error of the function returned", c.ret = IF stopped THEN "same" ELSE "nil")

NodeSet(q) == RangeS(q)
NonConst(S) == {x \in S : x[1] > 1}

(* Ids reachable in a set of nodes, used to validate the reference diagram *)
RECURSIVE Closure(_, _)
Closure(G, R) ==
  LET next == R \cup UNION {{x[3], x[4]} : x \in {y \in G : y[1] \in R}} IN
  IF next = R THEN R ELSE Closure(G, next)

AllnodesOK(c) ==
  LET N == NodeSet(c.nodes)
      R == NodeSet(c.ref)
      stopped == c.fail > 0 /\ Len(c.nodes) = c.fail IN
  /\ Req({"C11"}, "no node is visited twice", Cardinality({x[1] : x \in N}) = Len(c.nodes))
  /\ Req({"C11"}, "only nodes of the arguments are visited, as they are", NonConst(N) \subseteq R)
  /\ Req({"C11"}, "constants have ids 0 and 1", \A x \in N : x[1] < 2 => x[3] = x[1] /\ x[4] = x[1])
  /\ Req({"C11"}, "every node of the arguments is visited", stopped \/ R \subseteq N)
  /\ Req({"C11"}, "no call after an error", c.fail = 0 \/ Len(c.nodes) <= c.fail)
  /\ Req({"C11"}, "error of the function returned", c.ret = IF stopped THEN "same" ELSE "nil")

PrintOK(c) ==
  LET R == NonConst(NodeSet(c.ref)) IN
  IF Len(c.roots) = 1 /\ c.roots[1] < 2
  THEN /\ Req({"C11"}, "constants are printed as such", c.text = IF c.roots[1] = 1 THEN "True" ELSE "False")
       /\ Req({"C11"}, "no node for a constant", c.nodes = <<>>)
  ELSE /\ Req({"C11"}, "nothing but nodes is printed", c.text = "")
       /\ Req({"C11"}, "one line for each node", Len(c.nodes) = Cardinality(R))
       /\ Req({"C11"}, "exactly the nodes of the diagram", NodeSet(c.nodes) = R)

DotOK(c) ==
  LET R == NonConst(NodeSet(c.ref)) IN
  /\ Req({"C11"}, "Dot returns no error", c.ret = "nil")
  /\ Req({"C11"}, "the output is a graph", c.text = "")
  /\ Req({"C11"}, "one statement for each node and edge",
         /\ Cardinality(NonConst(NodeSet(c.nodes))) = Len(SelectSeq(c.nodes, LAMBDA x : x[1] > 1))
         /\ Cardinality(NodeSet(c.edges)) = Len(c.edges))
  /\ Req({"C11"}, "exactly the nodes of the diagram",
         NonConst(NodeSet(c.nodes)) = {<<x[1], x[2]>> : x \in R})
  /\ Req({"C11"}, "exactly the edges not leading to False",
         NodeSet(c.edges) = {<<x[1], 0, x[3]>> : x \in {y \in R : y[3] # 0}}
                       \cup {<<x[1], 1, x[4]>> : x \in {y \in R : y[4] # 0}})

InfoOK(c) ==
  CASE c.e = "Label" ->
         Req({"C16"}, "Label is the smallest variable",
             Support(nv, fn[c.a]) # {} => c.lab = cf.basis[Top(nv, fn[c.a]) + 1])
    [] c.e = "Satcount" ->
         Req({"C09"}, "exact number of assignments",
             c.q = Cardinality(fn[c.a]) /\ c.rem = 0)
    [] c.e = "Scanset" ->
         /\ Req({"C13"}, "Scanset is increasing", Ascending(c.set))
         /\ Req({"C13"}, "Scanset returns the set",
                IsVarset(fn[c.a]) => RangeS(c.set) = VarsOf(nv, fn[c.a]))
    [] c.e = "Allsat" -> AllsatOK(c)
    [] c.e = "Allnodes" -> AllnodesOK(c)
    [] c.e = "Print" -> PrintOK(c)
    [] c.e = "Dot" -> DotOK(c)
    [] c.e = "Equal" -> Req({"C02"}, "Equal iff same function", c.val = (fn[c.a] = fn[c.b]))

(* Low and High are used to observe diagrams for Allnodes, Print and Dot,  *)
(* but no new node is created.                                             *)
InfoCall ==
  /\ IsEvent({"Label", "Satcount", "Scanset", "Allsat", "Allnodes", "Print", "Dot", "Equal"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req(InfoProps(c), "error status is left alone", c.er = err)
     /\ Req({"C11"}, "the slices given are left as they were", ~c.mod)
     /\ IF c.res = "panic" THEN UNCHANGED cf
        ELSE /\ InfoOK(c)
             /\ Req(InfoProps(c), "no node is created, no collection happens",
                    c.pr = cf.pr /\ c.gc = 0 /\ c.al = cf.al)
             /\ Counters(c)
     /\ err' = (err \/ c.er)
     /\ UNCHANGED <<nv, fn, reps, lim, rids, id, gh, sz, enum, zomb>>

-----------------------------------------------------------------------------
(* Misuse: what each call is documented to return                          *)
FailVal(call) ==
  CASE call \in {"Label", "LabelConst"} -> "-1"
    [] call = "Satcount" -> "0"
    [] call \in {"Allsat", "Allnodes", "Allnodes2"} -> "err"
    [] call \in {"Print", "Dot"} -> "none"
    [] call = "Makeset" -> "False"
    [] OTHER -> "nil"

MisuseCall ==
  /\ IsEvent({"Misuse"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C12"}, "documented failure value", c.val = FailVal(c.call))
     /\ Req({"C12"}, "error status is set", c.er)
     /\ (IF c.res = "panic" THEN UNCHANGED cf ELSE Counters(c))
     /\ err' = (err \/ c.er)
     /\ UNCHANGED <<nv, fn, reps, lim, rids, id, gh, sz, enum, zomb>>

-----------------------------------------------------------------------------
(* Replacers                                                               *)
MakeReplacer ==
  /\ IsEvent({"NewRep"})
  /\ LET c == Line
         v == ValidReplacer(nv, c.old, c.new) IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C20", "C04"}, "NewReplacer accepts exactly the valid lists", (c.res = "ok") <=> v)
     /\ Req({"C20"}, "error status is left alone", c.er = err \/ (c.er /\ ~v))
     /\ Req({"C20", "C04"}, "the slices given are left as they were", ~c.mod)
     /\ err' = (err \/ c.er)
     /\ reps' = [reps EXCEPT ![c.k] = IF c.res = "ok" /\ v THEN ImageOf(nv, c.old, c.new) ELSE <<>>]
     /\ Req({"C15", "C04"}, "replacers have distinct identities", c.res = "ok" => c.rid \notin rids)
     /\ rids' = IF c.res = "ok" THEN rids \cup {c.rid} ELSE rids
     /\ UNCHANGED <<nv, fn, lim, id, gh, sz, enum, zomb, cf>>

-----------------------------------------------------------------------------
(* References                                                              *)
DropSlot ==
  /\ IsEvent({"Drop"})
  /\ Drop(Line.s)
  /\ id' = [id EXCEPT ![Line.s] = -1] /\ gh' = [gh EXCEPT ![Line.s] = ""]
  /\ zomb' = SetZ(Line.s)
  /\ UNCHANGED <<enum, cf, sz, rids>>

(* The Go runtime has collected the dropped references but for those in    *)
(* zom: a few, that share a block of memory with others, or that are still *)
(* on a stack. Many are left only if something else refers to them.        *)
GoGC ==
  /\ IsEvent({"GoGC"})
  /\ Req({"C08", "C14"}, "the library does not keep references to nodes", Len(Line.zom) <= 40)
  /\ zomb' = RangeS(Line.zom) \cap zomb
  /\ cf' = [cf EXCEPT !.settled = (zomb' = {})]
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum>>

(* k more references to the node of slot s. After 1023 simultaneous        *)
(* references a node may be kept for ever.                                 *)
HoldRefs ==
  /\ IsEvent({"Hold"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C14", "C08", "C05"}, "references to the same node", RangeS(c.ids) = {id[c.s]})
     /\ cf' = [cf EXCEPT !.hold = @ \cup {id[c.s]},
                         !.sat = IF c.sum >= 900 THEN @ \cup {id[c.s]} ELSE @]
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb>>

Release ==
  /\ IsEvent({"Release"})
  /\ LET c == Line IN
     /\ zomb' = zomb \cup {c.id}
     /\ cf' = [cf EXCEPT !.hold = IF c.all THEN @ \ {c.id} ELSE @]
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum>>

(* A node is observed through one of many references to it.                *)
Peek ==
  /\ IsEvent({"Peek"})
  /\ LET c == Line
         P == {"C14", "C08", "C05"} IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req(P, "the node observed is a diagram over the variables in use", ~c.frn)
     /\ Req(P, "a held node keeps its identity", c.id \in cf.hold)
     /\ Req(P, "a held node keeps its function and diagram",
            \A s \in DOMAIN fn : (Live(s) /\ id[s] = c.id) => (gh[s] = c.gh /\ fn[s] = RangeS(c.fs)))
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb, cf>>

(* Many references created and dropped in a row.                           *)
Churn ==
  /\ IsEvent({"Churn"})
  /\ LET c == Line
         ids == {id[c.slots[i]] : i \in DOMAIN c.slots} IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C14", "C08", "C05", "C01"}, "each call returns the same node", c.bad = 0)
     /\ Req({"C14"}, "error status is left alone", c.er = err)
     /\ CountersOK(c)
     /\ zomb' = zomb \cup ids
     /\ cf' = [cf EXCEPT !.al = c.al, !.pr = c.pr, !.us = c.us, !.gcs = @ + c.gc,
                         !.sat = IF c.tracked /\ c.sum < 900 THEN @ ELSE @ \cup ids]
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum>>

(* The same trivial call, many times.                                      *)
Repeat ==
  /\ IsEvent({"Repeat"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C03", "C04", "C01"}, "each call gives the same result", c.bad = 0)
     /\ Req({"C03", "C04", "C01"}, "error status is left alone", c.er = err)
     /\ Counters(c)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb>>

(* A batch of operations none of which keeps more than one node.           *)
LoopNodes(n) == (3 * n + 10) * Pow2[nv] + BaseSize
LoopBound(n) == 2 * ((LoopNodes(n) * 100) \div (99 - cf.minfree) + 1)
Batch ==
  /\ IsEvent({"Batch"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C08", "C07"}, "a bounded set of live nodes needs a bounded table", c.al <= LoopBound(c.n))
     /\ Req({"C08", "C01"}, "error status is left alone", c.er = err)
     /\ Counters(c)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb>>

-----------------------------------------------------------------------------
(* The whole table                                                         *)
Level(G, V) == [x \in {y[1] : y \in G} |-> (CHOOSE y \in G : y[1] = x)[2]]
WellFormed(c) ==
  LET G == NodeSet(c.nodes)
      NC == NonConst(G)
      ids == {x[1] : x \in G}
      lev == Level(G, cf.varnum) IN
  /\ Req({"C02", "C11"}, "each active node is enumerated once", Cardinality(ids) = Len(c.nodes))
  /\ Req({"C02", "C05", "C11"}, "children of active nodes are active",
         \A x \in NC : x[3] \in ids \cup {0, 1} /\ x[4] \in ids \cup {0, 1})
  /\ Req({"C02"}, "reduced", \A x \in NC : x[3] # x[4])
  /\ Req({"C02"}, "ordered", \A x \in NC : /\ x[2] \in 0..(cf.varnum - 1)
                                           /\ \A k \in {3, 4} : x[k] > 1 => lev[x[k]] > x[2])
  /\ Req({"C02"}, "no two nodes share variable, low and high",
         Cardinality({<<x[2], x[3], x[4]>> : x \in NC}) = Cardinality(NC))
  /\ Req({"C19", "C11"}, "used nodes are the active nodes",
         Cardinality(ids \ {0, 1}) + 2 = c.us)
  /\ Req({"C05", "C02", "C08"}, "held nodes are active",
         \A s \in DOMAIN fn : Live(s) => id[s] \in ids \cup {0, 1})

Table ==
  /\ IsEvent({"Table"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C11"}, "no error", c.res = "ok")
     /\ c.res = "ok" => WellFormed(c)
     /\ Counters(c)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb>>

(* A collection of the table was forced, with no operation in progress and *)
(* one node created after it: what is left is exactly what is reachable    *)
(* from held nodes, from references the Go runtime has not collected, and  *)
(* from variables, and that node.                                          *)
Collect ==
  /\ IsEvent({"Collect"})
  /\ LET c == Line
         G == NodeSet(c.nodes)
         ids == {x[1] : x \in G}
         held == {id[s] : s \in {t \in DOMAIN fn : Live(t)}}
         keep == Closure(G, held \cup zomb \cup cf.hold \cup cf.sat \cup cf.roots \cup {0, 1})
         must == Closure(G, held \cup cf.hold \cup cf.roots) IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ WellFormed(c)
     /\ c.forced =>
        Req({"C08", "C14"}, "unreachable nodes are reclaimed",
            ids \ {c.new} \subseteq keep)
     /\ Req({"C08", "C14", "C05"}, "held nodes are kept", must \subseteq ids \cup {0, 1})
     /\ Req({"C08", "C19"}, "the table grows only if it is too full after the collection",
            (c.forced /\ c.al > cf.al) =>
              100 * (cf.al - Cardinality(ids \ {c.new})) < (cf.minfree + 1) * cf.al)
     /\ Counters(c)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb>>

-----------------------------------------------------------------------------
(* Enumerations whose function uses the BDD                                *)
EnumBegin ==
  /\ IsEvent({"EnumBegin"})
  /\ LET c == Line IN
     /\ Live(c.a)
     /\ enum' = <<[k |-> c.k, f |-> fn[c.a], g |-> NodeSet(c.g), seen |-> {}, stop |-> FALSE]>> \o enum
     /\ fn' = [fn EXCEPT ![c.a] = IF c.drop THEN NIL ELSE @]
  /\ UNCHANGED <<nv, err, reps, lim, rids, id, gh, sz, zomb, cf>>

EnumCb ==
  /\ IsEvent({"EnumCb"})
  /\ LET c == Line
         e == Head(enum) IN
     /\ Req({"C17", "C10", "C11"}, "no call after an error", ~e.stop)
     /\ IF e.k = "sat"
        THEN LET q == CubeOf(nv, c.cube) IN
             /\ Req({"C17", "C10"}, "an assignment of all the variables",
                    ~c.frn /\ \A i \in 1..nv : c.cube[i] \in {-1, 0, 1})
             /\ Req({"C17", "C10"}, "a satisfying assignment", q \subseteq e.f)
             /\ Req({"C17", "C10"}, "not reported before", q \cap e.seen = {})
             /\ enum' = <<[e EXCEPT !.seen = @ \cup q]>> \o Tail(enum)
        ELSE IF e.k = "all"  \* other nodes may come and go
        THEN /\ Req({"C17", "C11"}, "a node of the argument, as it is", \A x \in e.g : x[1] = c.node[1] => x = c.node)
             /\ Req({"C17", "C11"}, "not reported before", c.node[1] \notin e.seen)
             /\ enum' = <<[e EXCEPT !.seen = @ \cup {c.node[1]}]>> \o Tail(enum)
        ELSE /\ Req({"C17", "C11"}, "a node of the argument, as it is", c.node[1] < 2 \/ c.node \in e.g)
             /\ Req({"C17", "C11"}, "not reported before", c.node \notin e.seen)
             /\ enum' = <<[e EXCEPT !.seen = @ \cup {c.node}]>> \o Tail(enum)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, zomb, cf>>

EnumStop ==
  /\ IsEvent({"EnumStop"})
  /\ enum' = <<[Head(enum) EXCEPT !.stop = TRUE]>> \o Tail(enum)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, zomb, cf>>

EnumEnd ==
  /\ IsEvent({"EnumEnd"})
  /\ LET c == Line
         e == Head(enum) IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C17", "C10", "C11"}, "nothing is missing",
            e.stop \/ CASE e.k = "sat" -> e.seen = e.f
                         [] e.k = "nodes" -> e.seen = e.g
                         [] e.k = "all" -> {x[1] : x \in e.g} \subseteq e.seen)
     /\ Req({"C17", "C10", "C11"}, "the error of the function, or none", c.ret = IF e.stop THEN "same" ELSE "nil")
     /\ IF c.res = "panic" THEN UNCHANGED cf ELSE Counters(c)
  /\ enum' = Tail(enum)
  /\ UNCHANGED <<rvars, rids, id, gh, sz, zomb>>

End == IsEvent({"End"}) /\ UNCHANGED <<rvars, rids, id, gh, sz, enum, zomb, cf>>

-----------------------------------------------------------------------------
(* Crash, Hang and Race events, and anything unknown, have no action.      *)
TraceNext ==
  \/ NewBDD \/ NodeCall \/ Check \/ InfoCall \/ MisuseCall \/ MakeReplacer
  \/ DropSlot \/ GoGC \/ HoldRefs \/ Release \/ Peek \/ Churn \/ Repeat \/ Batch \/ Table \/ Collect \/ EnumBegin \/ EnumCb \/ EnumStop \/ EnumEnd \/ End

TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
  /\ PrintT(<<"CHECKED", TLCGet(1)>>)
  /\ LET d == TLCGet("stats").diameter IN
     IF d - 1 = Len(Log) THEN TRUE
     ELSE /\ PrintT(<<"FAILED-AT", d>>)
          /\ FALSE
==============================================================================
