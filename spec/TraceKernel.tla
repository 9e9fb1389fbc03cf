----------------------------- MODULE TraceKernel -----------------------------
(***************************************************************************)
(* Validation of programs of kernel calls recorded from the real library   *)
(* against NodeTable: every call of Makenode is followed exactly, and the  *)
(* whole table is compared with the model after every collection and from  *)
(* time to time.                                                           *)
(***************************************************************************)
EXTENDS NodeTable, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Gate == IOEnv.GATE
VARIABLES l
tvars == <<kvars, l>>
Count == TLCSet(1, TLCGet(1) + 1)
Req(props, name, cond) ==
  IF Gate \notin props THEN TRUE
  ELSE IF cond THEN Count
  ELSE PrintT(<<"REJECTED", l, name>>) /\ FALSE
Line == Log[l]
IsEvent(names) == l <= Len(Log) /\ Line.e \in names /\ l' = l + 1
All == {"C02", "C05", "C07", "C08", "C14", "C18", "C19"}
Snapshot(q) == [x \in {q[i][1] : i \in DOMAIN q} \ {0, 1} |->
                 LET e == q[CHOOSE i \in DOMAIN q : q[i][1] = x] IN <<e[2], e[3], e[4]>>]
Max2(a, b) == IF a >= b THEN a ELSE b

KInit == /\ l = 1 /\ tab = <<>> /\ size = 2 /\ stack = <<>> /\ refs = <<>> /\ zom = {} /\ failed = FALSE
         /\ prod = 0 /\ gcs = 0 /\ opt = [V |-> 0] /\ TLCSet(1, 0)

Accounting(c, T) ==
  /\ Req({"C19"}, "used + free = allocated", c.us + c.fr = c.al /\ c.fr >= 0)
  /\ Req({"C19"}, "used nodes are the active nodes", c.us = Cardinality(DOMAIN T) + 2)

New ==
  /\ IsEvent({"New"})
  /\ LET c == Line IN
     /\ Req(All, "New succeeds", c.res = "ok" /\ ~c.er)
     /\ opt' = [V |-> c.varnum, minfree |-> IF c.minfree = -1 THEN 20 ELSE c.minfree,
                maxinc |-> IF c.maxinc = -1 THEN 1048576 ELSE c.maxinc,
                limit |-> IF c.maxsize <= 0 THEN 0 ELSE Max2(c.maxsize, 2 * c.varnum + 2),
                roots |-> RangeOf(c.roots)]
     /\ size' = c.al /\ prod' = c.pr /\ gcs' = c.gcs /\ failed' = FALSE
     /\ refs' = [s \in 1..c.S |-> -1] /\ zom' = {} /\ stack' = <<>> /\ tab' = <<>>

(* the table is known from here *)
Start ==
  /\ IsEvent({"Sync"})
  /\ LET c == Line
         T == Snapshot(c.nodes) IN
     /\ tab' = T
     /\ Req({"C18", "C02"}, "variables are in the table", opt.roots \subseteq DOMAIN T)
     /\ Req({"C02"}, "each node once", Cardinality(DOMAIN T \cup {0, 1}) = Len(c.nodes))
     /\ Accounting(c, T)
  /\ UNCHANGED <<size, stack, refs, zom, failed, prod, gcs, opt>>

KMake ==
  /\ IsEvent({"Make"})
  /\ LET c == Line
         t == <<c.lv, c.lo, c.hi>>
         col == Collects(c.lv, c.lo, c.hi)
         T == Snapshot(c.nodes)
         S == DOMAIN T \ {c.id} IN
     /\ Req(All, "no panic", c.res # "panic")
     /\ MakePre(c.lv, c.lo, c.hi)
     /\ Req({"C19", "C08"}, "a collection happens exactly when a new node is needed and no slot is free",
            c.gc = IF col THEN 1 ELSE 0)
     /\ IF c.gc > 0
        THEN /\ Req({"C18", "C05", "C08"}, "protected nodes survive a collection as they were",
                    \A x \in MustKeep : x \in DOMAIN T /\ T[x] = tab[x])
             /\ Req({"C18", "C02"}, "survivors are nodes of the table", \A x \in S : x \in Ids /\ T[x] = tab[x])
             /\ Req({"C08"}, "unreachable nodes are reclaimed", SurvivorsTight(S))
             /\ Req({"C02", "C05"}, "children of active nodes are active", SurvivorsClosed(S))
             /\ Req({"C19"}, "growth follows the options", GrowthOK(S, c.al))
             /\ (c.id = -1 =>
                  /\ Req({"C07", "C18"}, "failure only when the table is full at its limit",
                         FreeAfter(S, c.al) = 0 /\ opt.limit > 0 /\ c.al = opt.limit)
                  /\ Req({"C07", "C18"}, "failure sets the error status", c.er))
             /\ Req({"C07"}, "allocated within the limit", opt.limit = 0 \/ c.al <= opt.limit)
             /\ (c.id # -1 =>
                  Req({"C18", "C02"}, "the new node is in a free slot, with the given triple",
                      c.id \in 2..(c.al - 1) /\ c.id \in DOMAIN T /\ T[c.id] = t))
             /\ tab' = T
             /\ Accounting(c, T)
        ELSE /\ Req({"C07", "C18"}, "no failure while there is room", c.id # -1)
             /\ Req({"C19"}, "the table does not change size", c.al = size)
             /\ IF c.lo = c.hi
                THEN Req({"C18", "C02"}, "equal branches: no node", c.id = c.lo) /\ UNCHANGED tab
                ELSE IF Find(t) # {}
                THEN Req({"C18", "C02"}, "the same id for the same triple", c.id \in Find(t)) /\ UNCHANGED tab
                ELSE /\ Req({"C18", "C02"}, "a new node has a free id", c.id \in (2..(size - 1)) \ Ids)
                     /\ tab' = (c.id :> t) @@ tab
             /\ Accounting(c, tab')
     /\ Req({"C19"}, "produced counts the new nodes",
            c.pr - prod >= (IF c.lo = c.hi \/ Find(t) # {} \/ c.id = -1 THEN 0 ELSE 1))
     /\ Req({"C18"}, "error status", c.er = (failed \/ c.id = -1))
     /\ zom' = IF c.gc > 0 THEN zom \cap S ELSE zom
     /\ size' = c.al /\ prod' = c.pr /\ gcs' = gcs + c.gc /\ failed' = (failed \/ c.er)
  /\ UNCHANGED <<stack, refs, opt>>

KPush == IsEvent({"Push"}) /\ Req({"C18"}, "Pushref returns its argument", Line.ret = Line.n) /\ Push(Line.n)
KPop  == IsEvent({"Pop"}) /\ Req(All, "no panic", Line.res # "panic") /\ Pop(Line.k)
KInitStack == IsEvent({"Init"}) /\ InitStack
KRet  == /\ IsEvent({"Ret"})
         /\ Req(All, "no panic", Line.res # "panic")
         /\ Req({"C18"}, "Retnode returns a reference to the node", Line.id = Line.n)
         /\ Ret(Line.s, Line.n)
KDrop == IsEvent({"KDrop"}) /\ DropRef(Line.s)
KGoGC == IsEvent({"GoGC"}) /\ Finalize(RangeOf(Line.zom) \cap zom)

KSnap ==
  /\ IsEvent({"Snap"})
  /\ LET T == Snapshot(Line.nodes) IN
     /\ Req(All, "no panic", Line.res # "panic")
     /\ Req({"C18", "C02", "C05"}, "the table is as expected", T = tab)
     /\ Req({"C02"}, "each node once", Cardinality(DOMAIN T \cup {0, 1}) = Len(Line.nodes))
     /\ Req({"C02"}, "ordered, reduced, without duplicates", Ordered /\ Reduced /\ Unique)
     /\ Accounting(Line, T)
     /\ tab' = T
  /\ UNCHANGED <<size, stack, refs, zom, failed, prod, gcs, opt>>

(* An operation of the library: new nodes appear, and the stack is reset.  *)
KOp ==
  /\ IsEvent({"KOp"})
  /\ LET c == Line
         T == Snapshot(c.nodes)
         R == opt.roots \cup Handles
         keep == Reach(R) \cap Ids IN
     /\ Req(All, "no panic", c.res # "panic")
     /\ Req({"C18", "C05", "C14"}, "referenced nodes survive an operation as they were",
            \A x \in keep : x \in DOMAIN T /\ T[x] = tab[x])
     /\ Req({"C05", "C18"}, "the result is in the table", c.id \in {-1, 0, 1} \cup DOMAIN T)
     /\ Req({"C07", "C18"}, "no failure without a limit", c.id # -1 \/ opt.limit > 0)
     /\ Req({"C19"}, "nodes appear only when produced", c.gc > 0 \/ (Ids \subseteq DOMAIN T /\ c.pr - prod >= Cardinality(DOMAIN T) - Cardinality(Ids)))
     /\ Accounting(c, T)
     /\ tab' = T /\ size' = c.al /\ prod' = c.pr /\ gcs' = gcs + c.gc
     /\ failed' = (failed \/ c.er)
     /\ refs' = [refs EXCEPT ![c.s] = IF c.id > 1 THEN c.id ELSE -1]
     /\ zom' = (Dropped(c.s) \cup RangeOf(c.tmp)) \cap (Ids \cup DOMAIN T)
     /\ stack' = <<>>
  /\ UNCHANGED opt

End == IsEvent({"End"}) /\ UNCHANGED kvars
KNext == New \/ Start \/ KMake \/ KPush \/ KPop \/ KInitStack \/ KRet \/ KDrop \/ KGoGC \/ KSnap \/ KOp \/ End
KSpec == KInit /\ [][KNext]_tvars

Accepted ==
  /\ PrintT(<<"CHECKED", TLCGet(1)>>)
  /\ LET d == TLCGet("stats").diameter IN
     IF d - 1 = Len(Log) THEN TRUE
     ELSE /\ PrintT(<<"FAILED-AT", d>>)
          /\ FALSE
==============================================================================
