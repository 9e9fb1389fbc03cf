----------------------------- MODULE TraceMatrix -----------------------------
(***************************************************************************)
(* Exhaustive tables: the results of an operation for all functions of a   *)
(* few variables, recorded from the real library, one row for each event.  *)
(* A result is the code of the function denoted by the node returned, -1   *)
(* for nil, -2 for a broken diagram or one over other variables.           *)
(***************************************************************************)
EXTENDS BoolInt, TLC, Json, IOUtils, SequencesExt

Log == ndJsonDeserialize(IOEnv.TRACE)
Gate == IOEnv.GATE
VARIABLES l, n, known
vars == <<l, n, known>>

Count(k) == TLCSet(1, TLCGet(1) + k)
Req(props, name, k, cond) ==
  IF Gate \notin props THEN TRUE
  ELSE IF cond THEN Count(k)
  ELSE PrintT(<<"REJECTED", l, name>>) /\ FALSE
Line == Log[l]
IsEvent(names) == l <= Len(Log) /\ Line.e \in names /\ l' = l + 1
All == {"C01","C02","C03","C04","C06","C09","C10","C13","C16"}
Dom == 0..(Len(Line.res) - 1)
Cov(f) == Line.from + f                  \* the function of position f in a row

Init == l = 1 /\ n = 0 /\ known = {} /\ TLCSet(1, 0)

New == /\ IsEvent({"New"})
       /\ Req(All, "New succeeds", 1, Line.res = "ok" /\ ~Line.er)
       /\ n' = Line.n /\ known' = {}

(* Row operators: expected value at position f.                            *)
Want(c, f) ==
  CASE c.op = "id" -> Cov(f)
    [] c.op = "not" -> NotI(n, Cov(f))
    [] c.op = "exist" -> ExistI(n, Cov(f), c.v)
    [] c.op = "count" -> CountI(Cov(f))
    [] c.op = "ite" -> IteI(n, c.a, c.b, Cov(f))
    [] c.op = "low" -> IF SupportI(n, Cov(f)) = {} THEN Cov(f) ELSE CofI(n, Cov(f), TopI(n, Cov(f)), 0)
    [] c.op = "high" -> IF SupportI(n, Cov(f)) = {} THEN Cov(f) ELSE CofI(n, Cov(f), TopI(n, Cov(f)), 1)
    [] c.op = "label" -> TopI(n, Cov(f))
    [] OTHER -> ApplyI(n, c.op, c.a, Cov(f))

PropsOf(op) ==
  {"C06"} \cup
  CASE op = "exist" -> {"C03"}
    [] op = "count" -> {"C09"}
    [] op \in {"low", "high", "label"} -> {"C16"}
    [] OTHER -> {"C01"}

Sane == /\ Req(All, "no panic", 1, Line.pan = "")
        /\ Req(All, "error status is left alone", 1, ~Line.er)

Row == /\ IsEvent({"Row"})
       /\ Sane
       /\ Req(PropsOf(Line.op), "result denotes the expected function", Len(Line.res),
              \A f \in Dom : IF Line.op = "label" /\ SupportI(n, Cov(f)) = {} THEN TRUE ELSE Line.res[f+1] = Want(Line, f))
       /\ UNCHANGED <<n, known>>

AppEx == /\ IsEvent({"AppExRow"})
         /\ Sane
         /\ Req({"C03", "C06"}, "result denotes the quantification of the applied operator", Len(Line.res),
                \A f \in Dom : Line.res[f+1] = ExistI(n, ApplyI(n, Line.op, Line.a, Cov(f)), Line.v))
         /\ Req({"C03", "C06"}, "same node as Apply followed by Exist", Len(Line.res), Line.same)
         /\ UNCHANGED <<n, known>>

Olds(img) == {j \in 1..n : img[j] # j - 1}
Targets(img) == {img[j] : j \in Olds(img)}
Clash(f, img) == SupportI(n, f) \cap (Targets(img) \ {j - 1 : j \in Olds(img)}) # {}
(* the status is sticky so failures are reported with a fresh BDD          *)
Replace == /\ IsEvent({"ReplaceRow"})
           /\ Req(All, "no panic", 1, Line.pan = "")
           /\ Req({"C04", "C06"}, "simultaneous renaming, or an error when a target variable occurs", Len(Line.res),
                  \A f \in Dom : \/ Line.res[f+1] = RenameI(n, Line.fs[f+1], Line.img)
                                 \/ Line.res[f+1] = -1 /\ Clash(Line.fs[f+1], Line.img))
           /\ Req({"C04"}, "the error status tells whether a call failed", 1,
                  Line.er = (\E f \in Dom : Line.res[f+1] = -1))
           /\ UNCHANGED <<n, known>>

(* Equal(a, g) for all g, each function built in two ways                  *)
EqualRow == /\ IsEvent({"EqualRow"})
            /\ Sane
            /\ Req({"C02", "C06"}, "Equal iff same function", Len(Line.res),
                   Line.res = <<Line.a>>)
            /\ UNCHANGED <<n, known>>

(* cubes of one function: pairs of codes of variable sets                  *)
AllsatRow ==
  /\ IsEvent({"AllsatRow"})
  /\ Sane
  /\ Req({"C10", "C06"}, "disjoint cubes that cover exactly the satisfying assignments", Len(Line.res),
         \A f \in Dom :
           LET cs == Line.res[f+1]
               q == [k \in 1..Len(cs) |-> CubeI(n, cs[k][1], cs[k][2], 0)]
               add(x, y) == IF x = -1 \/ (x & y) # 0 THEN -1 ELSE x | y IN
           /\ \A k \in 1..Len(cs) : (cs[k][1] & cs[k][2]) = 0 /\ q[k] # 0
           /\ FoldSeq(LAMBDA y, x : add(x, y), 0, q) = Cov(f))
  /\ UNCHANGED <<n, known>>

CubeRow ==
  /\ IsEvent({"CubeRow"})
  /\ Sane
  /\ Req({"C13", "C06"}, "conjunction of exactly the given literals", 1,
         Line.res = CubeI(n, Line.pos, Line.neg, 0))
  /\ Req({"C13"}, "same node as obtained with And", 1, Line.same)
  /\ Req({"C13"}, "Scanset is the set in increasing order", 1,
         Line.neg = 0 => Line.set = SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : (Line.pos \div P2[i]) % 2 = 1))
  /\ UNCHANGED <<n, known>>

End == IsEvent({"End"}) /\ UNCHANGED <<n, known>>
Next == New \/ Row \/ AppEx \/ Replace \/ EqualRow \/ AllsatRow \/ CubeRow \/ End
Spec == Init /\ [][Next]_vars

Accepted ==
  /\ PrintT(<<"CHECKED", TLCGet(1)>>)
  /\ LET d == TLCGet("stats").diameter IN
     IF d - 1 = Len(Log) THEN TRUE
     ELSE /\ PrintT(<<"FAILED-AT", d>>)
          /\ FALSE
==============================================================================
