------------------------------ MODULE TraceDeep ------------------------------
(***************************************************************************)
(* Diagrams thousands of levels deep, over up to 2097151 variables.  The   *)
(* functions are cubes, clauses and parities, which have a symbolic form   *)
(* closed under many operations and a known reduced diagram, so that every *)
(* result can be compared with the diagram it must have, node by node.     *)
(* Pol(f) below: [k, p, n] with k the kind; a cube is the conjunction of   *)
(* the variables of p and of the negations of those of n, a clause their   *)
(* disjunction, and a parity the exclusive or of the variables of p, and   *)
(* of True if n = {0}.  MCDeep checks these definitions against BoolFun.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, DeepFun

Log == ndJsonDeserialize(IOEnv.TRACE)
Gate == IOEnv.GATE

VARIABLES l, V, fn, id, gh, err, cf
tvars == <<l, V, fn, id, gh, err, cf>>

Count == TLCSet(1, TLCGet(1) + 1)
Req(props, name, cond) ==
  IF Gate \notin props THEN TRUE
  ELSE IF cond THEN Count
  ELSE PrintT(<<"REJECTED", l, name>>) /\ FALSE
Line == Log[l]
IsEvent(names) == l <= Len(Log) /\ Line.e \in names /\ l' = l + 1
AllProps == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10",
             "C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21"}
RangeS(s) == {s[i] : i \in DOMAIN s}
Live(s) == fn[s].k # "nil"
Known(s) == fn[s].k \notin {"nil", "none"}
Nil == [k |-> "nil", p |-> {}, n |-> {}]
Soon == 60000   \* milliseconds; calls take less than one second
BaseSize == 2 * V + 2

DInit == /\ l = 1 /\ V = 0 /\ fn = <<>> /\ id = <<>> /\ gh = <<>> /\ err = FALSE
         /\ cf = [al |-> 0, pr |-> 0] /\ TLCSet(1, 0)

CountersOK(c) ==
  /\ Req({"C19"}, "used + free = allocated", c.us + c.fr = c.al)
  /\ Req({"C19"}, "free is not negative", c.fr >= 0)
  /\ Req({"C19"}, "produced never decreases", c.pr >= cf.pr)
  /\ Req({"C19"}, "collections never decrease", c.gc >= 0)
  /\ Req({"C19"}, "the table never shrinks", c.al >= cf.al)
  /\ Req({"C19"}, "growth only in a collection", c.al > cf.al => c.gc > 0)
  /\ Req({"C07", "C19"}, "room for the variables", c.al >= BaseSize)

New ==
  /\ IsEvent({"New"})
  /\ LET c == Line IN
     /\ Req(AllProps, "New succeeds", c.res = "ok")
     /\ V' = c.varnum /\ err' = FALSE
     /\ fn' = [s \in 1..c.S |-> Nil] /\ id' = [s \in 1..c.S |-> -1] /\ gh' = [s \in 1..c.S |-> ""]
     /\ cf' = [al |-> c.al, pr |-> c.pr, gcs |-> 0]
     /\ Req({"C20"}, "Varnum is the number given", c.got = c.varnum)

PropsOf(c) ==
  {"C14", "C15", "C08"}
  \cup (IF c.e \in {"Const", "Not", "Apply", "Ite"} THEN {"C01"} ELSE {})
  \cup (IF c.e \in {"Exist", "AppEx"} THEN {"C03"} ELSE {})
  \cup (IF c.e = "Replace" THEN {"C04"} ELSE {})
  \cup (IF c.e \in {"Makeset", "Makecube"} THEN {"C13"} ELSE {})
  \cup (IF c.e \in {"Var", "Low", "High"} THEN {"C16"} ELSE {})
  \cup (IF c.e \in {"KCube", "KParity"} THEN {"C18"} ELSE {})
  \cup (IF c.gc > 0 \/ cf.gcs > 0 THEN {"C05"} ELSE {})


Expect(c) ==
  CASE c.e = "Const" -> IF c.val THEN TrueD ELSE FalseD
    [] c.e = "Var" -> LitD(c.i, c.pol)
    [] c.e \in {"Makecube", "KCube"} -> CubeD({c.vs[i] : i \in {j \in DOMAIN c.vs : c.pol[j]}},
                                              {c.vs[i] : i \in {j \in DOMAIN c.vs : ~c.pol[j]}})
    [] c.e = "KParity" -> ParityD(RangeS(c.vs), c.bit = 1)
    [] c.e = "Makeset" -> CubeD(RangeS(c.vs), {})
    [] c.e = "Not" -> NotD(fn[c.a])
    [] c.e = "Apply" -> ApplyD(c.op, fn[c.a], fn[c.b])
    [] c.e = "Ite" -> IteD(fn[c.a], fn[c.b], fn[c.c])
    [] c.e = "Exist" -> ExistD(fn[c.a], fn[c.v].p)
    [] c.e = "AppEx" -> ExistD(ApplyD(c.op, fn[c.a], fn[c.b]), fn[c.v].p)
    [] c.e = "Replace" -> RenameD(fn[c.a], c.old, c.new)
    [] c.e = "Low" -> CofD(fn[c.a], 0)
    [] c.e = "High" -> CofD(fn[c.a], 1)

Operands(c) == (IF "a" \in DOMAIN c THEN {c.a} ELSE {}) \cup (IF "b" \in DOMAIN c THEN {c.b} ELSE {})
               \cup (IF "c" \in DOMAIN c THEN {c.c} ELSE {}) \cup (IF "v" \in DOMAIN c THEN {c.v} ELSE {})

(* The slots whose node is no longer held when the call returns: the one   *)
(* of the result, and those of the operands that the program gave up.      *)
Gone(c) == {c.r} \cup (IF "eat" \in DOMAIN c THEN RangeS(c.eat) ELSE {})

NodeCall ==
  /\ IsEvent({"Const", "Var", "Makecube", "KCube", "KParity", "Makeset", "Not", "Apply", "Ite", "Exist", "AppEx", "Replace", "Low", "High"})
  /\ LET c == Line
         P == PropsOf(c)
         known == /\ \A s \in Operands(c) : Known(s)
                  /\ ("v" \in DOMAIN c => fn[c.v].k = "cube" /\ fn[c.v].n = {})
         f == IF known THEN Expect(c) ELSE NoneD IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req(P, "a valid call succeeds",
            c.res = "ok" \/ (c.e = "Replace" /\ (~known \/ ClashD(fn[c.a], c.old, c.new))))
     /\ Req(P, "error status", c.er = (err \/ c.res # "ok"))
     /\ Req({"C21"}, "the call ends soon", c.ms < Soon)
     /\ (c.res = "ok" /\ f.k # "none") =>
        /\ Req(P, "result denotes the expected function", c.sh = ShapeD(f))
        /\ Req({"C02"}, "the constants are the nodes 0 and 1", (f = TrueD <=> c.id = 1) /\ (f = FalseD <=> c.id = 0))
        /\ Req({"C02"}, "same function iff same node",
               \A t \in DOMAIN fn : (t \notin Gone(c) /\ Known(t)) => ((fn[t] = f) <=> (id[t] = c.id)))
        /\ Req({"C02"}, "Equal iff same function",
               \A t \in DOMAIN fn : (t \notin Gone(c) /\ Known(t)) => ((fn[t] = f) <=> (t \in RangeS(c.eq))))
     /\ Req({"C11", "C02"}, "the diagram is ordered, reduced, and visited once", c.res = "ok" => c.good)
     /\ CountersOK(c)
     /\ cf' = [cf EXCEPT !.al = c.al, !.pr = c.pr, !.gcs = @ + c.gc]
     /\ fn' = [s \in DOMAIN fn |-> IF s = c.r THEN (IF c.res = "ok" THEN f ELSE Nil)
                                    ELSE IF s \in Gone(c) THEN Nil ELSE fn[s]]
     /\ id' = [id EXCEPT ![c.r] = c.id]
     /\ gh' = [gh EXCEPT ![c.r] = c.gh]
     /\ err' = (err \/ c.er)
     /\ UNCHANGED V

Check ==
  /\ IsEvent({"Check"})
  /\ LET c == Line
         P == {"C05", "C08", "C14", "C15", "C18", "C07", "C12", "C17"} IN
     /\ Live(c.s)
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req(P, "a held node keeps its identity", c.id = id[c.s])
     /\ Req(P \cup {"C02"}, "a held node keeps its diagram", c.gh = gh[c.s])
     /\ Req(P, "error status is left alone", c.er = err)
  /\ UNCHANGED <<V, fn, id, gh, err, cf>>

Drop == /\ IsEvent({"Drop"})
        /\ fn' = [fn EXCEPT ![Line.s] = Nil] /\ id' = [id EXCEPT ![Line.s] = -1] /\ gh' = [gh EXCEPT ![Line.s] = ""]
        /\ UNCHANGED <<V, err, cf>>

(* A forced collection of the table.  c.reach nodes that are not variables *)
(* are reachable from the held nodes; c.zom dropped references have not    *)
(* been collected by the Go runtime.  One node was made after it.          *)
Collect ==
  /\ IsEvent({"Collect"})
  /\ LET c == Line IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C05", "C08", "C14", "C19"}, "held nodes are kept", c.us >= BaseSize + c.reach)
     /\ Req({"C08", "C14"}, "unreachable nodes are reclaimed",
            (c.forced /\ c.plain /\ c.zom = 0) => c.us <= BaseSize + c.reach + 1)
     /\ CountersOK(c)
     /\ cf' = [cf EXCEPT !.al = c.al, !.pr = c.pr, !.gcs = @ + c.gc]
     /\ Req(AllProps, "error status is left alone", c.er = err)
  /\ UNCHANGED <<V, fn, id, gh, err>>

-----------------------------------------------------------------------------
(* A count is logged as the positions of its lowest and highest bits and   *)
(* the number of its bits, which tells 2^a - 2^b exactly.                  *)
CountOK(f, c) ==
  CASE f = FalseD -> c.zero
    [] f.k = "parity" -> ~c.zero /\ c.lo = V - 1 /\ c.hi = V - 1 /\ c.ones = 1
    [] f.k = "cube" -> LET k == Cardinality(f.p) + Cardinality(f.n) IN
                       ~c.zero /\ c.lo = V - k /\ c.hi = V - k /\ c.ones = 1
    [] f.k = "clause" -> LET k == Cardinality(f.p) + Cardinality(f.n) IN
                         ~c.zero /\ c.lo = V - k /\ c.hi = V - 1 /\ c.ones = k

(* The cubes of an enumeration, as pairs of a set of true and one of false *)
(* variables.                                                              *)
Disjoint(x, y) == x[1] \cap y[2] # {} \/ x[2] \cap y[1] # {}
ImpliesD(x, f) ==
  CASE f.k = "cube" -> f.p \subseteq x[1] /\ f.n \subseteq x[2]
    [] f.k = "clause" -> f.p \cap x[1] # {} \/ f.n \cap x[2] # {}
    [] f.k = "parity" -> f.p \subseteq (x[1] \cup x[2])
                         /\ (Cardinality(f.p \cap x[1]) + (IF f.n = {} THEN 0 ELSE 1)) % 2 = 1
Weight(q, m) == FoldSet(LAMBDA x, y : 2^(m - (Cardinality(x[1]) + Cardinality(x[2]))) + y, 0, q)
AllsatOK(f, c) ==
  LET S == [i \in DOMAIN c.cubes |-> <<RangeS(c.cubes[i][1]), RangeS(c.cubes[i][2])>>]
      Q == RangeS(S)
      m == IF Q = {} THEN 0 ELSE Max({Cardinality(x[1]) + Cardinality(x[2]) : x \in Q}) IN
  /\ Req({"C10"}, "entries are -1, 0 or 1", c.good)
  /\ Req({"C10"}, "no error", c.ret = "nil")
  /\ Req({"C10"}, "the cubes are disjoint",
         Cardinality(Q) = Len(c.cubes) /\ \A x, y \in Q : x # y => Disjoint(x, y))
  /\ Req({"C10"}, "the cubes cover only satisfying assignments", \A x \in Q : ImpliesD(x, f))
  /\ Req({"C10"}, "the cubes cover all the satisfying assignments",
         CASE f = FalseD -> Q = {}
           [] f.k = "cube" -> Q # {} /\ (m <= 25 => Weight(Q, m) = 2^(m - Cardinality(f.p) - Cardinality(f.n)))
                              /\ (m > 25 => \E x \in Q : x = <<f.p, f.n>>)
           [] f.k = "clause" -> m <= 25 => Weight(Q, m) = 2^m - 2^(m - Cardinality(f.p) - Cardinality(f.n))
           [] f.k = "parity" -> m <= 25 => Weight(Q, m) = 2^(m - 1))

RECURSIVE Increasing(_, _)
Increasing(q, i) == i >= Len(q) \/ (q[i] < q[i+1] /\ Increasing(q, i + 1))

Info ==
  /\ IsEvent({"Satcount", "Allsat", "Scanset", "Label", "Dump"})
  /\ LET c == Line
         f == fn[c.a]
         P == CASE c.e = "Satcount" -> {"C09"} [] c.e = "Allsat" -> {"C10"} [] c.e = "Scanset" -> {"C13"}
                [] c.e = "Label" -> {"C16"} [] c.e = "Dump" -> {"C11"} IN
     /\ Req(AllProps, "no panic", c.res # "panic")
     /\ Req({"C21"}, "the call ends soon", c.ms < Soon)
     /\ Req(P, "error status is left alone", c.er = err)
     /\ Known(c.a) =>
        CASE c.e = "Satcount" -> Req(P, "exact number of assignments", CountOK(f, c))
          [] c.e = "Allsat" -> AllsatOK(f, c)
          [] c.e = "Scanset" -> (f.k = "cube" /\ f.n = {}) =>
                Req(P, "Scanset returns the set in increasing order",
                    RangeS(c.set) = f.p /\ \A i \in 1..(Len(c.set) - 1) : c.set[i] < c.set[i+1])
          [] c.e = "Label" -> f \notin {TrueD, FalseD} => Req(P, "Label is the smallest variable", c.lab = TopD(f))
          [] c.e = "Dump" -> Req(P, "the output has exactly the nodes of the diagram", c.sh = ShapeD(f))
     /\ Req(P, "no node is created, no collection happens", c.pr = cf.pr /\ c.gc = 0 /\ c.al = cf.al)
     /\ CountersOK(c)
  /\ UNCHANGED <<V, fn, id, gh, err, cf>>

End == IsEvent({"End"}) /\ UNCHANGED <<V, fn, id, gh, err, cf>>

TraceNext == New \/ NodeCall \/ Check \/ Drop \/ Collect \/ Info \/ End
TraceSpec == DInit /\ [][TraceNext]_tvars
TraceAccepted ==
  /\ PrintT(<<"CHECKED", TLCGet(1)>>)
  /\ LET d == TLCGet("stats").diameter IN
     IF d - 1 = Len(Log) THEN TRUE
     ELSE /\ PrintT(<<"FAILED-AT", d>>)
          /\ FALSE
==============================================================================
