----------------------------- MODULE TraceParams -----------------------------
(***************************************************************************)
(* Which parameters New and NewReplacer accept (C20), and the identities   *)
(* of replacers (C15).  Integers beyond +-2^30 are recorded as +-2^30,     *)
(* which are just as invalid.                                              *)
(***************************************************************************)
EXTENDS Rudd, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Gate == IOEnv.GATE
VARIABLES l, rids
Count == TLCSet(1, TLCGet(1) + 1)
Req(name, cond) == IF cond THEN Count ELSE PrintT(<<"REJECTED", l, name>>) /\ FALSE
Line == Log[l]
IsEvent(names) == l <= Len(Log) /\ Line.e \in names /\ l' = l + 1
tvars == <<rvars, l, rids>>
MaxVar == 2097151

PInit == /\ nv = 0 /\ fn = <<>> /\ err = FALSE /\ reps = <<>> /\ lim = FALSE
         /\ l = 1 /\ rids = {} /\ TLCSet(1, 0)

(* New: the number of variables decides, the options never matter.  A      *)
(* probe of variable i has the label, low and high of Ithvar and NIthvar.  *)
TryNew ==
  /\ IsEvent({"TryNew"})
  /\ LET c == Line
         valid == c.vn \in 1..MaxVar IN
     /\ Req("New does not panic", c.res # "panic")
     /\ Req("New succeeds exactly for 1 to 2097151 variables", (c.res = "ok") <=> valid)
     /\ Req("New returns a BDD exactly when it returns no error", c.isnil <=> ~valid)
     /\ valid =>
        /\ Req("the error status is clear", ~c.er)
        /\ Req("Varnum is the number given", c.varnum = c.vn)
        /\ Req("all the variables are usable",
               /\ Len(c.vars) > 0
               /\ \A k \in DOMAIN c.vars : LET t == c.vars[k] IN t = <<t[1], t[1], 0, 1, t[1], 1, 0>>)
        /\ Req("there is room for the variables", c.al >= 2 * c.vn + 2)
  /\ UNCHANGED <<rvars, rids>>

TryRep ==
  /\ IsEvent({"TryRep"})
  /\ LET c == Line
         valid == ValidReplacer(c.v, c.old, c.new) IN
     /\ Req("NewReplacer does not panic", c.res # "panic")
     /\ Req("NewReplacer accepts exactly the valid lists", (c.res = "ok") <=> valid)
     /\ Req("a replacer is returned exactly when there is no error", c.isnil <=> ~valid)
     /\ valid =>
        /\ Req("the error status is left alone", ~c.er)
        /\ Req("replacers have distinct identities", c.rid \notin rids)
        /\ Req("old variables go to new ones, the others to themselves",
               \A k \in DOMAIN c.img :
                 LET i == c.img[k][1] IN
                 c.img[k][2] = IF \E j \in DOMAIN c.old : c.old[j] = i
                               THEN c.new[CHOOSE j \in DOMAIN c.old : c.old[j] = i] ELSE i)
     /\ rids' = IF c.res = "ok" THEN rids \cup {c.rid} ELSE rids
  /\ UNCHANGED rvars

Other == IsEvent({"New", "Params", "End"}) /\ UNCHANGED <<rvars, rids>>

PNext == TryNew \/ TryRep \/ Other
PSpec == PInit /\ [][PNext]_tvars

Accepted ==
  /\ PrintT(<<"CHECKED", TLCGet(1)>>)
  /\ LET d == TLCGet("stats").diameter IN
     IF d - 1 = Len(Log) THEN TRUE
     ELSE /\ PrintT(<<"FAILED-AT", d>>)
          /\ FALSE
==============================================================================
