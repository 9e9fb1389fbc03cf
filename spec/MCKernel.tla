------------------------------ MODULE MCKernel ------------------------------
(***************************************************************************)
(* Kernel explored: every sequence of calls among Calls (specification     *)
(* Spec), or random ones (specification SimSpec, for TLC's simulation).    *)
(* The constants are read from the environment, K_NV and so on.            *)
(***************************************************************************)
EXTENDS Kernel, IOUtils, Json, Sequences, FiniteSets

EnvI(n) == atoi(IOEnv[n])
E_nv == EnvI("K_NV")
E_NS == EnvI("K_NS")
E_Size0 == 2 * E_nv + 2 + EnvI("K_EXTRA")
E_Limit == IF EnvI("K_LIMIT") = 0 THEN 0 ELSE 2 * E_nv + 2 + EnvI("K_LIMIT")
E_MinFree == EnvI("K_MINFREE")
E_MaxInc == EnvI("K_MAXINC")
E_CacheMod == EnvI("K_CACHE")
E_MaxRef == EnvI("K_MAXREF")
E_MaxSize == 2 * E_nv + 2 + EnvI("K_GROW")
AllMuts == <<"", "mark-low", "unsaturate", "gc-norefs", "mark-flat", "over-limit", "unreduced", "twice", "nogrow", "keep-on-grow",
             "keep-on-fail", "keep-on-gc", "nofreed", "not-low", "not-high", "key-apply-op", "key-apply-commutes", "apply-low",
             "apply-high", "key-ite", "ite-low", "ite-high", "key-quant-set", "key-quant-kind", "quant-low", "quant-high",
             "key-appex-set", "key-appex-op", "appex-low", "appex-high", "corr-low", "corr-high", "key-replace-id", "replace-low",
             "replace-high", "set-push", "noref", "args-Not", "args-Apply", "args-Ite", "args-Exist", "args-AppEx", "args-Replace",
             "keep-on-gc-a", "keep-on-gc-i", "keep-on-gc-q", "keep-on-gc-x", "keep-on-gc-r",
             "keep-on-grow-a", "keep-on-grow-i", "keep-on-grow-q", "keep-on-grow-x", "keep-on-grow-r", "memo-a", "memo-i", "memo-q", "memo-x", "memo-r">>
Within(x, s) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x
(* K_MUT: the variations, each one between spaces *)
Muts == {AllMuts[i] : i \in {j \in DOMAIN AllMuts : Within(" " \o AllMuts[j] \o " ", IOEnv.K_MUT)}}
Depth == EnvI("K_DEPTH")      \* length of the programs
Kinds == IOEnv.K_OPS          \* the calls, for instance "Not Apply"

Image(i, j) == [v \in Vars(nv) |-> IF v = i THEN j ELSE v]
Pairs == {p \in Vars(nv) \X Vars(nv) : p[1] # p[2]}
Slot == 1..NS
Operand == Slot \cup Lits
Sets == SUBSET Vars(nv) \ {{}}
Base == [e |-> "", as |-> <<>>, r |-> 1, eat |-> FALSE, fz |-> FALSE]
Eat == BOOLEAN
Fz == BOOLEAN

OpNames == {"and", "xor", "or", "nand", "diff", "imp"}
QOps == {"and", "xor", "or", "nand"}
Uses(e) == Within(e, Kinds)

(* all the calls *)
Calls ==
  (IF Uses("Not") THEN {[Base EXCEPT !.e = "Not", !.as = <<a>>, !.r = r, !.eat = x, !.fz = z] : a \in Slot, r \in Slot, x \in Eat, z \in Fz} ELSE {})
  \cup (IF Uses("Apply") THEN {[e |-> "Apply", op |-> o, as |-> <<a, b>>, r |-> r, eat |-> x, fz |-> z] :
            o \in OpNames, a \in Operand, b \in Operand, r \in Slot, x \in Eat, z \in Fz} ELSE {})
  \cup (IF Uses("Ite") THEN {[e |-> "Ite", as |-> <<a, b, c>>, r |-> r, eat |-> x, fz |-> z] :
            a \in Operand, b \in Operand, c \in Operand, r \in Slot, x \in Eat, z \in Fz} ELSE {})
  \cup (IF Uses("Exist") THEN {[e |-> "Exist", q |-> q, as |-> <<a>>, r |-> r, eat |-> x, fz |-> z] :
            q \in Sets, a \in Slot, r \in Slot, x \in Eat, z \in Fz} ELSE {})
  \cup (IF Uses("AppEx") THEN {[e |-> "AppEx", op |-> o, q |-> q, as |-> <<a, b>>, r |-> r, eat |-> x, fz |-> z] :
            o \in QOps, q \in Sets, a \in Operand, b \in Operand, r \in Slot, x \in Eat, z \in Fz} ELSE {})
  \cup (IF Uses("Replace") THEN {[e |-> "Replace", img |-> Image(p[1], p[2]), id |-> p[1] * nv + p[2] + 1, as |-> <<a>>, r |-> r, eat |-> x, fz |-> z] :
            p \in Pairs, a \in Slot, r \in Slot, x \in Eat, z \in Fz} ELSE {})
  \cup (IF Uses("Set") THEN {[e |-> "Set", q |-> q, as |-> <<>>, r |-> r, eat |-> FALSE, fz |-> z] : q \in Sets, r \in Slot, z \in Fz} ELSE {})
  \cup (IF Uses("Low") THEN {[e |-> h, as |-> <<a>>, r |-> r, eat |-> x, fz |-> FALSE] :
            h \in {"Low", "High"}, a \in Slot, r \in Slot, x \in Eat} ELSE {})

Next == \/ \E c \in Calls : Do(c)
        \/ GoGC
        \/ \E s \in Slot : DropOne(s)
Spec == Init(Muts) /\ [][Next]_vars
Shallow == Len(prog) < Depth

(* a random call *)
R(S) == RandomElement(S)
RandOps == SelectSeq(<<"Not", "Apply", "Apply", "Apply", "Ite", "Ite", "Exist", "Exist", "AppEx", "AppEx", "Replace", "Replace", "Set", "Low", "High">>, Uses)
RandCall(e) ==
  LET r == R(Slot)  x == R(Eat)  z == R(Fz)
      a == R(IF LiveSlots = {} THEN Lits ELSE LiveSlots)
      o == R(LiveSlots \cup Lits)
      p == R(IF LiveSlots = {} THEN Lits ELSE LiveSlots) IN
  CASE e = "Not"     -> [e |-> e, as |-> <<a>>, r |-> r, eat |-> x, fz |-> z]
    [] e = "Apply"   -> [e |-> e, op |-> R(OpNames), as |-> IF R({TRUE, FALSE}) THEN <<a, o>> ELSE <<o, p>>, r |-> r, eat |-> x, fz |-> z]
    [] e = "Ite"     -> [e |-> e, as |-> LET k == R(1..3) IN IF k = 1 THEN <<a, o, p>> ELSE IF k = 2 THEN <<o, p, a>> ELSE <<R(Lits), a, p>>,
                         r |-> r, eat |-> x, fz |-> z]
    [] e = "Exist"   -> [e |-> e, q |-> R(Sets), as |-> <<a>>, r |-> r, eat |-> x, fz |-> z]
    [] e = "AppEx"   -> [e |-> e, op |-> R(QOps), q |-> R(Sets), as |-> IF R({TRUE, FALSE}) THEN <<a, o>> ELSE <<a, p>>, r |-> r, eat |-> x, fz |-> z]
    [] e = "Replace" -> LET g == R(Pairs) IN
                        [e |-> e, img |-> Image(g[1], g[2]), id |-> g[1] * nv + g[2] + 1, as |-> <<a>>, r |-> r, eat |-> x, fz |-> z]
    [] e = "Set"     -> [e |-> e, q |-> R(Sets), as |-> <<>>, r |-> r, eat |-> FALSE, fz |-> z]
    [] OTHER         -> [e |-> e, as |-> <<a>>, r |-> r, eat |-> x, fz |-> FALSE]
RandomNext ==
     \E k \in {R(1..12)} :
       IF k = 1 /\ DOMAIN M.pend # {} THEN GoGC
       ELSE IF k = 2 /\ LiveSlots # {} THEN \E s \in {R(LiveSlots)} : DropOne(s)
       ELSE \E i \in {R(1..Len(RandOps))} : \E c \in {RandCall(RandOps[i])} :
              IF Allowed(c) THEN Do(c) ELSE UNCHANGED vars

(* In a variation of the design an entry of a cache may be wrong: calls    *)
(* that find it.                                                           *)
ReplId(id) == <<(id - 1) \div nv, (id - 1) % nv>>
RightRes(k) == IF k[1] = "r" THEN RenameF(nv, Den(M, k[2]), Image(ReplId(k[4])[1], ReplId(k[4])[2])) ELSE KeyFun(k)
Known(k) == \A x \in KeyIds(k) : Active(M, x)
IsVarset(f) == f = {} \/ f = SetF(nv, Support(nv, f))
SetOf(k) == IF k[1] = "q" THEN k[3] ELSE (k[4] - 1) \div 4
SetKnown(k) == IF k[1] = "r" THEN k[4] > 0 ELSE k[1] \notin {"q", "x"} \/ (LET f == Den(M, SetOf(k)) IN f # {} /\ f # U(nv) /\ IsVarset(f))
WrongKeys == {k \in {M.cch[i][1] : i \in DOMAIN M.cch} :
                Known(k) /\ SetKnown(k) /\ Den(M, M.cch[Idx(k)][2]) # RightRes(k)}
At(n) == {x \in LiveSlots \cup Lits : IdOf(x) = n}
OpOf(S, n) == {o \in S : OpNum[o] = n}
Finds(k) ==
  LET b == [e |-> "", as |-> <<>>, r |-> R(Slot), eat |-> FALSE, fz |-> FALSE] IN
  CASE k[1] = "a" /\ k[3] = -2 -> IF Uses("Not") THEN {[b EXCEPT !.e = "Not", !.as = <<x>>] : x \in At(k[2])} ELSE {}
    [] k[1] = "a" /\ k[3] # -2 -> IF Uses("Apply") THEN {[e |-> "Apply", op |-> o, as |-> <<x, y>>, r |-> b.r, eat |-> FALSE, fz |-> FALSE] :
                                     o \in OpOf(OpNames, k[4]), x \in At(k[2]), y \in At(k[3])} ELSE {}
    [] k[1] = "i" -> IF Uses("Ite") THEN {[b EXCEPT !.e = "Ite", !.as = <<x, y, z>>] : x \in At(k[2]), y \in At(k[3]), z \in At(k[4])} ELSE {}
    [] k[1] = "q" -> IF Uses("Exist") /\ k[4] = 0 THEN {[e |-> "Exist", q |-> VarsOf(nv, Den(M, k[3])), as |-> <<x>>, r |-> b.r, eat |-> FALSE, fz |-> FALSE] :
                        x \in At(k[2]) \cap LiveSlots} ELSE {}
    [] k[1] = "x" -> IF Uses("AppEx") THEN {[e |-> "AppEx", op |-> o, q |-> VarsOf(nv, Den(M, SetOf(k))), as |-> <<x, y>>, r |-> b.r, eat |-> FALSE, fz |-> FALSE] :
                        o \in OpOf(QOps, (k[4] - 1) % 4), x \in At(k[2]), y \in At(k[3])} ELSE {}
    [] k[1] = "r" -> IF Uses("Replace") THEN {[e |-> "Replace", img |-> Image(ReplId(k[4])[1], ReplId(k[4])[2]), id |-> k[4], as |-> <<x>>, r |-> b.r,
                        eat |-> FALSE, fz |-> FALSE] : x \in At(k[2]) \cap LiveSlots} ELSE {}
Hunting == {c \in UNION {Finds(k) : k \in WrongKeys} : Allowed(c)}

SimNext ==
  /\ ~dead
  /\ LET H == IF mut = "" THEN {} ELSE Hunting IN
     IF H # {} /\ R(1..2) = 1 THEN \E c \in {R(H)} : Do(c) ELSE RandomNext
SimSpec == Init(Muts) /\ [][SimNext]_vars

View == <<M, hd, want, dead>>

Inv == /\ NotDead /\ CountsOK /\ CacheOK /\ M.stk = <<>>

(* Programs are printed: those that show a wrong behaviour of a variation, *)
(* a few for each, and those of Depth calls if there is no variation.      *)
Config == [nv |-> nv, ns |-> NS, size |-> Size0, limit |-> Limit, minfree |-> MinFree, maxinc |-> MaxInc, cache |-> CacheMod]
Shown == PrintT(<<"PROGRAM", ToJson([mut |-> mut, cfg |-> Config, prog |-> prog])>>)
MaxKills == EnvI("K_KILLS")
Nr(m) == CHOOSE i \in DOMAIN AllMuts : AllMuts[i] = m
Enough == \A m \in Muts : TLCGet(Nr(m)) >= MaxKills
Show == TLCGet(Nr(mut)) < MaxKills =>
          /\ Shown
          /\ TLCSet(Nr(mut), TLCGet(Nr(mut)) + 1)
          /\ Enough => TLCSet("exit", TRUE)
Killer == dead => Show
Walked == Len(prog) = Depth => Show
ASSUME \A i \in DOMAIN AllMuts : TLCSet(i, 0)
==============================================================================
