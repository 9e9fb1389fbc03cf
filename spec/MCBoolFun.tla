------------------------------ MODULE MCBoolFun ------------------------------
(* Sanity of the oracle itself: Boolean laws, and equivalence of the        *)
(* operators used on traces with their definitions, for all functions of    *)
(* two variables and (for quantification, renaming) of three.               *)
EXTENDS BoolFun, TLC
F2 == SUBSET U(2)
F3 == SUBSET U(3)
Img3 == {img \in [0..2 -> 0..2] : TRUE}
Laws2 == \A f, g \in F2 :
  /\ ApplyF(2, "and", f, g) = f \cap g
  /\ ApplyF(2, "or", f, g) = f \cup g
  /\ ApplyF(2, "diff", f, g) = f \ g
  /\ ApplyF(2, "less", f, g) = g \ f
  /\ ApplyF(2, "xor", f, g) = (f \ g) \cup (g \ f)
  /\ ApplyF(2, "nand", f, g) = NotF(2, f \cap g)
  /\ ApplyF(2, "nor", f, g) = NotF(2, f \cup g)
  /\ ApplyF(2, "imp", f, g) = NotF(2, f) \cup g
  /\ ApplyF(2, "invimp", f, g) = f \cup NotF(2, g)
  /\ ApplyF(2, "biimp", f, g) = NotF(2, ApplyF(2, "xor", f, g))
  /\ \A h \in F2 : IteF(2, f, g, h) = (f \cap g) \cup (NotF(2, f) \cap h)
Exist3 == \A f \in F3 : \A V \in SUBSET Vars(3) : ExistF(3, f, V) = ExistDef(3, f, V)
Shannon3 == \A f \in F3 : \A i \in Vars(3) :
  /\ IteF(3, VarF(3, i), CofF(3, f, i, 1), CofF(3, f, i, 0)) = f
  /\ DependsOn(3, f, i) <=> CofF(3, f, i, 0) # CofF(3, f, i, 1)
  /\ ExistF(3, f, {i}) = CofF(3, f, i, 0) \cup CofF(3, f, i, 1)
Rename3 == \A img \in Img3 :
  /\ \A i \in Vars(3) : RenameF(3, VarF(3, i), img) = VarF(3, img[i])
  /\ \A f, g \in {VarF(3,0), VarF(3,1), VarF(3,2), {}, U(3), {0,3}, {1,4,6}} :
       /\ RenameF(3, f \cap g, img) = RenameF(3, f, img) \cap RenameF(3, g, img)
       /\ RenameF(3, NotF(3, f), img) = NotF(3, RenameF(3, f, img))
Sets3 == \A V \in SUBSET Vars(3) : VarsOf(3, SetF(3, V)) = V
ASSUME Laws2 /\ Exist3 /\ Shannon3 /\ Rename3 /\ Sets3
VARIABLE x
Init == x = 0
Next == UNCHANGED x
==============================================================================
