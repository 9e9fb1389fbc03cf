--------------------------------- MODULE Rudd ---------------------------------
(***************************************************************************)
(* The library as its user sees it: slots holding nodes (here, directly    *)
(* the Boolean functions they denote: canonicity makes node identity and   *)
(* equality of functions the same thing), the error status, and replacers. *)
(* A call is a record c with c.e its name, c.r the slot for its result,    *)
(* and its arguments; Pre(c) is the documented precondition and Exp(c) the *)
(* function the result must denote.  The trace specification evaluates     *)
(* Pre and Exp on recorded calls; MCRudd explores them exhaustively.       *)
(***************************************************************************)
EXTENDS BoolFun, Integers

VARIABLES nv,     \* number of variables (of the model)
          fn,     \* slot -> function, or NIL
          err,    \* error status
          reps,   \* replacer slot -> image (sequence: image of i at i+1), or NIL
          lim     \* memory limit configured?

rvars == <<nv, fn, err, reps, lim>>
NIL == {-1}

Live(s) == fn[s] # NIL
Fns(ss) == [i \in 1..Len(ss) |-> fn[ss[i]]]
RangeS(s) == {s[i] : i \in DOMAIN s}
Img(q) == [i \in Vars(nv) |-> q[i+1]]
(* the renaming of a call is that of a replacer slot, or given in the call *)
RepOf(c) == IF "img" \in DOMAIN c THEN c.img ELSE reps[c.k]

OneArg == {"Not", "Low", "High", "Copy"}
TwoArg == {"Apply", "Imp", "Equiv", "Exist"}

(* A varset operand must denote a positive cube (True is the empty set;    *)
(* False is treated as the empty set too).                                 *)
IsVarset(f) == f = {} \/ f = SetF(nv, Support(nv, f))

TargetsOf(img) == {img[i] : i \in {j \in DOMAIN img : img[j] # j}}
OldsOf(img) == {j \in DOMAIN img : img[j] # j}
(* no target variable that is not itself renamed occurs in f               *)
NoClash(f, img) == Support(nv, f) \cap (TargetsOf(img) \ OldsOf(img)) = {}

Pre(c) ==
  CASE c.e \in OneArg   -> Live(c.a)
    [] c.e \in {"And", "Or"} -> \A i \in DOMAIN c.as : Live(c.as[i])
    [] c.e = "Apply"    -> Live(c.a) /\ Live(c.b) /\ c.op \in BinOps
    [] c.e \in {"Imp", "Equiv"} -> Live(c.a) /\ Live(c.b)
    [] c.e = "Ite"      -> Live(c.a) /\ Live(c.b) /\ Live(c.c)
    [] c.e = "Exist"    -> Live(c.a) /\ Live(c.v) /\ IsVarset(fn[c.v])
    [] c.e = "AppEx"    -> Live(c.a) /\ Live(c.b) /\ Live(c.v) /\ c.op \in AppExOps /\ IsVarset(fn[c.v])
    [] c.e = "AndExist" -> Live(c.a) /\ Live(c.b) /\ Live(c.v) /\ IsVarset(fn[c.v])
    [] c.e = "Replace"  -> Live(c.a) /\ RepOf(c) # <<>>
    [] c.e = "Var"      -> c.i \in Vars(nv)
    [] c.e = "Makeset"  -> \A i \in DOMAIN c.vs : c.vs[i] \in Vars(nv)
    [] c.e = "Makecube" -> /\ Len(c.vs) = Len(c.pol)
                           /\ \A i \in DOMAIN c.vs : c.vs[i] \in Vars(nv)
                           /\ \A i, j \in DOMAIN c.vs : i < j => c.vs[i] < c.vs[j]
    [] c.e = "Makenode" -> /\ Live(c.a) /\ Live(c.b) /\ c.i \in Vars(nv)
                           /\ \A j \in Support(nv, fn[c.a]) \cup Support(nv, fn[c.b]) : c.i < j
    [] OTHER            -> TRUE

Exp(c) ==
  CASE c.e = "Const"    -> IF c.val THEN U(nv) ELSE {}
    [] c.e = "Var"      -> LitF(nv, c.i, c.pol)
    [] c.e = "Build"    -> RangeS(c.tt)
    [] c.e = "Copy"     -> fn[c.a]
    [] c.e = "Not"      -> NotF(nv, fn[c.a])
    [] c.e = "Apply"    -> ApplyF(nv, c.op, fn[c.a], fn[c.b])
    [] c.e = "And"      -> AndAllF(nv, Fns(c.as))
    [] c.e = "Or"       -> OrAllF(nv, Fns(c.as))
    [] c.e = "Imp"      -> ApplyF(nv, "imp", fn[c.a], fn[c.b])
    [] c.e = "Equiv"    -> ApplyF(nv, "biimp", fn[c.a], fn[c.b])
    [] c.e = "Ite"      -> IteF(nv, fn[c.a], fn[c.b], fn[c.c])
    [] c.e = "Exist"    -> ExistF(nv, fn[c.a], VarsOf(nv, fn[c.v]))
    [] c.e = "AppEx"    -> AppExF(nv, c.op, fn[c.a], fn[c.b], VarsOf(nv, fn[c.v]))
    [] c.e = "AndExist" -> AppExF(nv, "and", fn[c.a], fn[c.b], VarsOf(nv, fn[c.v]))
    [] c.e = "Replace"  -> RenameF(nv, fn[c.a], Img(RepOf(c)))
    [] c.e = "Makeset"  -> SetF(nv, RangeS(c.vs))
    [] c.e = "Makecube" -> CubeF(nv, {c.vs[i] : i \in {j \in DOMAIN c.vs : c.pol[j]}},
                                     {c.vs[i] : i \in {j \in DOMAIN c.vs : ~c.pol[j]}})
    [] c.e = "Low"      -> IF Support(nv, fn[c.a]) = {} THEN fn[c.a]
                           ELSE CofF(nv, fn[c.a], Top(nv, fn[c.a]), 0)
    [] c.e = "High"     -> IF Support(nv, fn[c.a]) = {} THEN fn[c.a]
                           ELSE CofF(nv, fn[c.a], Top(nv, fn[c.a]), 1)
    [] c.e = "Makenode" -> IteF(nv, VarF(nv, c.i), fn[c.b], fn[c.a])
    [] c.e = "Nested"   -> \* Ite(And(a,b), Or(Not(c),a), Equiv(b,c)), no intermediate result held
          IteF(nv, fn[c.a] \cap fn[c.b], NotF(nv, fn[c.c]) \cup fn[c.a],
                   ApplyF(nv, "biimp", fn[c.b], fn[c.c]))

(* When may a valid call fail (nil and error)?  At the memory limit, or a  *)
(* Replace whose target variables clash.                                   *)
MayFail(c) == lim \/ (c.e = "Replace" /\ ~NoClash(fn[c.a], Img(RepOf(c))))

(* Validity of the parameters of NewReplacer, over the real variables      *)
ValidReplacer(varnum, old, new) ==
  /\ Len(old) = Len(new)
  /\ \A i \in DOMAIN old : old[i] \in 0..(varnum-1) /\ new[i] \in 0..(varnum-1)
  /\ \A i, j \in DOMAIN old : i # j => old[i] # old[j] /\ new[i] # new[j]
  /\ \A i, j \in DOMAIN old : new[i] = old[j] => i = j
ImageOf(n, old, new) ==
  [q \in 1..n |-> IF \E i \in DOMAIN old : old[i] = q-1
                  THEN new[CHOOSE i \in DOMAIN old : old[i] = q-1] ELSE q-1]

(* Actions *)
Keep == UNCHANGED <<nv, lim>>
Succeed(c) == /\ Pre(c)
              /\ fn' = [fn EXCEPT ![c.r] = Exp(c)]
              /\ UNCHANGED <<err, reps>> /\ Keep
Fail(c) ==    /\ Pre(c) /\ MayFail(c)
              /\ fn' = [fn EXCEPT ![c.r] = NIL] /\ err' = TRUE
              /\ UNCHANGED reps /\ Keep
Misuse(c) ==  /\ ~Pre(c)
              /\ fn' = [fn EXCEPT ![c.r] = NIL] /\ err' = TRUE
              /\ UNCHANGED reps /\ Keep
Drop(s) ==    /\ fn' = [fn EXCEPT ![s] = NIL] /\ UNCHANGED <<err, reps>> /\ Keep
NewRep(k, old, new) ==
  /\ reps' = [reps EXCEPT ![k] = IF ValidReplacer(nv, old, new) THEN ImageOf(nv, old, new) ELSE <<>>]
  /\ UNCHANGED <<fn, err>> /\ Keep

(* Properties of every step *)
ErrSticky == err => err'
FrameOK(s) == fn'[s] = fn[s]
==============================================================================
