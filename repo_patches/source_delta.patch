From 3909c8c42c08bee647e82c457ba2f5c22442d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 01/18] fix: set difference with False on the left is False

---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 77c61ba5801a819b1587e339c65ec9fec531d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 02/18] fix: Exist over an empty variable set returns its
 operand

---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..315c4a9 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From 4faec49ceabeaca283d8d8cd7465c26a4ccad6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 03/18] fix: Allsat stops and returns the error of the callback

---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 315c4a9..89a6dd9 100644
--- a/operations.go
+++ b/operations.go
@@ -723,7 +723,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -733,7 +733,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From d44b648e1c2978ceec0a6c61eb0871398642169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 04/18] fix: report a nil operand instead of dereferencing it
 in the error message

---
 operations.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/operations.go b/operations.go
index 89a6dd9..df62ee0 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand in call to Apply %s (n1)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand in call to Apply %s (n2)", op)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand in call to Ite (f)")
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand in call to Ite (g)")
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand in call to Ite (h)")
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist (n)")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist")
 	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
@@ -448,16 +448,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx")
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand in call to AppEx %s (left)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand in call to AppEx %s (right)", op)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +658,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount")
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -697,8 +697,8 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // it is a don't care. We stop and return an error if f returns an error at some
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
-	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+	if err := b.checkptr(n); err != nil {
+		return fmt.Errorf("wrong node in call to Allsat; %s", err)
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From b702990aa85425df5ef72cbaf38f8a4066efd854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 05/18] fix: variables that overflow an int32 are out of range
 in Ithvar and NIthvar

---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From 1ad8d351a05bd353deb19dcf1d4ab406c7bd973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 06/18] fix: NewReplacer rejects out of range and repeated
 variables without panicking

---
 replace.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..d54b156 100644
--- a/replace.go
+++ b/replace.go
@@ -73,17 +73,22 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	for k := range res.image {
 		res.image[k] = int32(k)
 	}
+	newsupport := make([]bool, varnum)
 	for k, v := range oldvars {
+		if v < 0 || v >= varnum {
+			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
+		}
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
 		if support[v] {
 			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
-		if v >= varnum {
-			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
-		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if newsupport[newvars[k]] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", newvars[k])
 		}
 		support[v] = true
+		newsupport[newvars[k]] = true
 		res.image[v] = int32(newvars[k])
 		if int32(v) > res.last {
 			res.last = int32(v)
-- 
2.43.0


From 2700e8df5d892efceedcf3fb120e59bd96236409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 07/18] fix: Makeset reports unknown variables, and accepts
 variables in any order

---
 operations.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index df62ee0..c1299bd 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -43,10 +44,22 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			b.seterror("Unknown variable used (%d) in call to Makeset", v)
+			return bddzero
+		}
+	}
+	if !sort.IntsAreSorted(varset) {
+		varset = append([]int{}, varset...)
+		sort.Ints(varset)
+	}
 	res := 1
 	b.Initref()
 	for k := len(varset) - 1; k >= 0; k-- {
-		res = b.Makenode(int32(varset[k]), 0, res)
+		if k == len(varset)-1 || varset[k] != varset[k+1] {
+			res = b.Makenode(int32(varset[k]), 0, res)
+		}
 		b.Pushref(res)
 	}
 	b.Popref(len(varset))
-- 
2.43.0


From 3afa91952782b473384ab1e50d4ef6bb01bbc4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 08/18] fix: Makecube reports unknown variables

---
 operations.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operations.go b/operations.go
index c1299bd..b713837 100644
--- a/operations.go
+++ b/operations.go
@@ -96,6 +96,11 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	if len(varset) != len(polarity) {
 		return b.seterror("wrong size for slices in Makecube")
 	}
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			return b.seterror("Unknown variable used (%d) in call to Makecube", v)
+		}
+	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
 		if polarity[k] {
-- 
2.43.0


From f4ec7d7a09bdaa68288d5918041f0b4c26af62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 09/18] fix: abandon an operation as soon as a recursive call
 fails

---
 bdd.go        |  4 +++
 bkernel.go    |  4 +++
 hkernel.go    |  4 +++
 operations.go | 85 +++++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 97 insertions(+)

diff --git a/bdd.go b/bdd.go
index 4b24291..a82a6f7 100644
--- a/bdd.go
+++ b/bdd.go
@@ -167,6 +167,10 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if low < 0 || high < 0 {
+		// we failed to build one of the branches
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
diff --git a/bkernel.go b/bkernel.go
index 9983ede..344d2ae 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -16,6 +16,10 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
+	if n == -1 {
+		// the result of a failed operation, for which the error is already set
+		return nil
+	}
 	if n < 0 || n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
diff --git a/hkernel.go b/hkernel.go
index 554c344..8f7520b 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -16,6 +16,10 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
+	if n == -1 {
+		// the result of a failed operation, for which the error is already set
+		return nil
+	}
 	if n < 0 || n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
diff --git a/operations.go b/operations.go
index b713837..0ed190f 100644
--- a/operations.go
+++ b/operations.go
@@ -128,6 +128,13 @@ func (b *BDD) Not(n Node) Node {
 	return b.Retnode(res)
 }
 
+// poperror is used to abandon an operation when the result of a recursive call
+// is an error (-1); we pop a values from the reference stack.
+func (b *BDD) poperror(a int) int {
+	b.Popref(a)
+	return -1
+}
+
 func (b *BDD) not(n int) int {
 	if n == 0 {
 		return 1
@@ -140,7 +147,13 @@ func (b *BDD) not(n int) int {
 		return res
 	}
 	low := b.Pushref(b.not(b.low(n)))
+	if low < 0 {
+		return b.poperror(1)
+	}
 	high := b.Pushref(b.not(b.high(n)))
+	if high < 0 {
+		return b.poperror(2)
+	}
 	res := b.Makenode(b.level(n), low, high)
 	b.Popref(2)
 	return b.setnot(n, res)
@@ -302,16 +315,34 @@ func (b *BDD) apply(left int, right int) int {
 	var res int
 	if leftlvl == rightlvl {
 		low := b.Pushref(b.apply(b.low(left), b.low(right)))
+		if low < 0 {
+			return b.poperror(1)
+		}
 		high := b.Pushref(b.apply(b.high(left), b.high(right)))
+		if high < 0 {
+			return b.poperror(2)
+		}
 		res = b.Makenode(leftlvl, low, high)
 	} else {
 		if leftlvl < rightlvl {
 			low := b.Pushref(b.apply(b.low(left), right))
+			if low < 0 {
+				return b.poperror(1)
+			}
 			high := b.Pushref(b.apply(b.high(left), right))
+			if high < 0 {
+				return b.poperror(2)
+			}
 			res = b.Makenode(leftlvl, low, high)
 		} else {
 			low := b.Pushref(b.apply(left, b.low(right)))
+			if low < 0 {
+				return b.poperror(1)
+			}
 			high := b.Pushref(b.apply(left, b.high(right)))
+			if high < 0 {
+				return b.poperror(2)
+			}
 			res = b.Makenode(rightlvl, low, high)
 		}
 	}
@@ -400,7 +431,13 @@ func (b *BDD) ite(f, g, h int) int {
 	q := b.level(g)
 	r := b.level(h)
 	low := b.Pushref(b.ite(b.iteLow(p, q, r, f), b.iteLow(q, p, r, g), b.iteLow(r, p, q, h)))
+	if low < 0 {
+		return b.poperror(1)
+	}
 	high := b.Pushref(b.ite(b.iteHigh(p, q, r, f), b.iteHigh(q, p, r, g), b.iteHigh(r, p, q, h)))
+	if high < 0 {
+		return b.poperror(2)
+	}
 	res := b.Makenode(min3(p, q, r), low, high)
 	b.Popref(2)
 	return b.setite(f, g, h, res)
@@ -442,7 +479,13 @@ func (b *BDD) quant(n, varset int) int {
 		return res
 	}
 	low := b.Pushref(b.quant(b.low(n), varset))
+	if low < 0 {
+		return b.poperror(1)
+	}
 	high := b.Pushref(b.quant(b.high(n), varset))
+	if high < 0 {
+		return b.poperror(2)
+	}
 	var res int
 	if b.quantset[b.level(n)] == b.quantsetID {
 		res = b.apply(low, high)
@@ -577,7 +620,13 @@ func (b *BDD) appquant(left, right, varset int) int {
 	var res int
 	if leftlvl == rightlvl {
 		low := b.Pushref(b.appquant(b.low(left), b.low(right), varset))
+		if low < 0 {
+			return b.poperror(1)
+		}
 		high := b.Pushref(b.appquant(b.high(left), b.high(right), varset))
+		if high < 0 {
+			return b.poperror(2)
+		}
 		if b.quantset[leftlvl] == b.quantsetID {
 			res = b.apply(low, high)
 		} else {
@@ -586,7 +635,13 @@ func (b *BDD) appquant(left, right, varset int) int {
 	} else {
 		if leftlvl < rightlvl {
 			low := b.Pushref(b.appquant(b.low(left), right, varset))
+			if low < 0 {
+				return b.poperror(1)
+			}
 			high := b.Pushref(b.appquant(b.high(left), right, varset))
+			if high < 0 {
+				return b.poperror(2)
+			}
 			if b.quantset[leftlvl] == b.quantsetID {
 				res = b.apply(low, high)
 			} else {
@@ -594,7 +649,13 @@ func (b *BDD) appquant(left, right, varset int) int {
 			}
 		} else {
 			low := b.Pushref(b.appquant(left, b.low(right), varset))
+			if low < 0 {
+				return b.poperror(1)
+			}
 			high := b.Pushref(b.appquant(left, b.high(right), varset))
+			if high < 0 {
+				return b.poperror(2)
+			}
 			if b.quantset[rightlvl] == b.quantsetID {
 				res = b.apply(low, high)
 			} else {
@@ -629,7 +690,13 @@ func (b *BDD) replace(n int, r Replacer) int {
 		return res
 	}
 	low := b.Pushref(b.replace(b.low(n), r))
+	if low < 0 {
+		return b.poperror(1)
+	}
 	high := b.Pushref(b.replace(b.high(n), r))
+	if high < 0 {
+		return b.poperror(2)
+	}
 	res := b.correctify(image, low, high)
 	b.Popref(2)
 	return b.setreplace(n, res)
@@ -648,7 +715,13 @@ func (b *BDD) correctify(level int32, low, high int) int {
 
 	if b.level(low) == b.level(high) {
 		left := b.Pushref(b.correctify(level, b.low(low), b.low(high)))
+		if left < 0 {
+			return b.poperror(1)
+		}
 		right := b.Pushref(b.correctify(level, b.high(low), b.high(high)))
+		if right < 0 {
+			return b.poperror(2)
+		}
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
 		return res
@@ -656,14 +729,26 @@ func (b *BDD) correctify(level int32, low, high int) int {
 
 	if b.level(low) < b.level(high) {
 		left := b.Pushref(b.correctify(level, b.low(low), high))
+		if left < 0 {
+			return b.poperror(1)
+		}
 		right := b.Pushref(b.correctify(level, b.high(low), high))
+		if right < 0 {
+			return b.poperror(2)
+		}
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
 		return res
 	}
 
 	left := b.Pushref(b.correctify(level, low, b.low(high)))
+	if left < 0 {
+		return b.poperror(1)
+	}
 	right := b.Pushref(b.correctify(level, low, b.high(high)))
+	if right < 0 {
+		return b.poperror(2)
+	}
 	res := b.Makenode(b.level(high), left, right)
 	b.Popref(2)
 	return res
-- 
2.43.0


From 5ff2822c89f8041f22711ed18c1b155c7026f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 10/18] fix: honour Maxnodesize, report the memory error, and
 use free nodes when the table cannot grow

---
 bdd.go     | 6 ++++++
 bkernel.go | 8 ++++----
 buddy.go   | 8 ++++++++
 hkernel.go | 6 +++---
 hudd.go    | 8 ++++++++
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/bdd.go b/bdd.go
index a82a6f7..f8b17fb 100644
--- a/bdd.go
+++ b/bdd.go
@@ -175,6 +175,12 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 	if err == nil {
 		return res
 	}
+	if err == errMemory {
+		// nodes may have been reclaimed, like with a reset
+		b.cachereset()
+		b.seterror("%s", err)
+		return -1
+	}
 	if err == errReset {
 		// FIXME: we do not need to invalidate the cache for a reset when we use
 		// the Hudd implementation because the hash does not change. On the
diff --git a/bkernel.go b/bkernel.go
index 344d2ae..9ac4f10 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -82,11 +82,11 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// if we cannot resize, we can still use the nodes that were freed
+			if b.noderesize() == errResize {
+				err = errResize
+				hash = b.nodehash(level, low, high)
 			}
-			hash = b.nodehash(level, low, high)
 		}
 		// Panic if we still have no free positions after all this
 		if b.freepos == 0 {
diff --git a/buddy.go b/buddy.go
index 3f6e8c3..1ed0730 100644
--- a/buddy.go
+++ b/buddy.go
@@ -95,7 +95,15 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
 	impl.maxnodeincrease = config.maxnodeincrease
+	impl.maxnodesize = config.maxnodesize
 	nodesize := primeGte(config.nodesize)
+	if impl.maxnodesize > 0 && nodesize > impl.maxnodesize {
+		// we never go below the size needed for the variables
+		nodesize = impl.maxnodesize
+		if nodesize < 2*config.varnum+2 {
+			nodesize = 2*config.varnum + 2
+		}
+	}
 	impl.nodes = make([]buddynode, nodesize)
 	for k := range impl.nodes {
 		impl.nodes[k] = buddynode{
diff --git a/hkernel.go b/hkernel.go
index 8f7520b..928a861 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -74,9 +74,9 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// if we cannot resize, we can still use the nodes that were freed
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
 		// Panic if we still have no free positions after all this
diff --git a/hudd.go b/hudd.go
index bd817d1..98852b6 100644
--- a/hudd.go
+++ b/hudd.go
@@ -95,8 +95,16 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
 	impl.maxnodeincrease = config.maxnodeincrease
+	impl.maxnodesize = config.maxnodesize
 	// initializing the list of nodes
 	nodesize := config.nodesize
+	if impl.maxnodesize > 0 && nodesize > impl.maxnodesize {
+		// we never go below the size needed for the variables
+		nodesize = impl.maxnodesize
+		if nodesize < 2*config.varnum+2 {
+			nodesize = 2*config.varnum + 2
+		}
+	}
 	impl.nodes = make([]huddnode, nodesize)
 	for k := range impl.nodes {
 		impl.nodes[k] = huddnode{
-- 
2.43.0


From f986b3729bdcfd815b7251e68322fc19f2e642cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 11/18] fix: a small Maxnodeincrease does not prevent the BuDDy
 table from growing

---
 bkernel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bkernel.go b/bkernel.go
index 9ac4f10..2568edb 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -132,7 +132,10 @@ func (b *tables) noderesize() error {
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
 		nodesize = b.maxnodesize
 	}
-	nodesize = primeLte(nodesize)
+	// we prefer a prime size, unless rounding down cancels the increase
+	if prime := primeLte(nodesize); prime > oldsize {
+		nodesize = prime
+	}
 	if nodesize <= oldsize {
 		// b.seterror("Unable to grow size of BDD (%d nodes)", nodesize)
 		return errMemory
-- 
2.43.0


From 8a5351812c3bfaa0d591f68227a5f344e199fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 12/18] fix: a saturated reference count is never decremented

---
 buddy.go | 6 +++++-
 hudd.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index 1ed0730..5a585f4 100644
--- a/buddy.go
+++ b/buddy.go
@@ -134,7 +134,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a reference count that reached its maximum is never decremented, since
+		// we do not count the references created after that
+		if (impl.nodes[*n].refcou & _MAXREFCOUNT) < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index 98852b6..29bcf86 100644
--- a/hudd.go
+++ b/hudd.go
@@ -158,7 +158,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a reference count that reached its maximum is never decremented, since
+		// we do not count the references created after that
+		if (impl.nodes[*n].refcou & _MAXREFCOUNT) < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From ca55f6c366750345d9899274b32c5201b6d8d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 13/18] fix: synchronize reference counts and table growth with
 finalizers

---
 bkernel.go | 10 +++++++++-
 buddy.go   |  7 ++++++-
 hkernel.go | 10 +++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 2568edb..556a54a 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -33,6 +33,9 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	// finalizers update reference counts from another goroutine
+	b.refmutex.Lock()
+	defer b.refmutex.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -141,9 +144,11 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	b.refmutex.Lock()
 	tmp := b.nodes
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
+	b.refmutex.Unlock()
 
 	for n := 0; n < oldsize; n++ {
 		b.nodes[n].hash = 0
@@ -225,7 +230,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.refmutex.Lock()
+		refcou := b.nodes[k].refcou
+		b.refmutex.Unlock()
+		if refcou > 0 {
 			b.markrec(k)
 		}
 		b.nodes[k].hash = 0
diff --git a/buddy.go b/buddy.go
index 5a585f4..97999a0 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -17,6 +18,7 @@ import (
 // Diagrams based on the data structures and algorithms found in the BuDDy
 // library.
 type tables struct {
+	refmutex      sync.Mutex  // Protects reference counts, and the nodes slice, from concurrent finalizers
 	nodes         []buddynode // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
@@ -128,6 +130,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.refmutex.Lock()
+		defer impl.refmutex.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
@@ -209,7 +213,8 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
 	// 	return err
 	// }
-	for k, v := range b.nodes {
+	for k := range b.nodes {
+		v := &b.nodes[k]
 		if v.low != -1 {
 			if err := f(k, int(v.level), v.low, v.high); err != nil {
 				return err
diff --git a/hkernel.go b/hkernel.go
index 928a861..5a030ca 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -33,6 +33,9 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	// finalizers update reference counts from another goroutine
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -123,7 +126,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.RLock()
+		refcou := b.nodes[k].refcou
+		b.RUnlock()
+		if refcou > 0 {
 			b.markrec(k)
 		}
 	}
@@ -180,6 +186,8 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	b.Lock()
+	defer b.Unlock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
-- 
2.43.0


From 0e005227cc1f35163917de5cbd91703a590fbd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 14/18] fix: replacer identifiers are unique across goroutines

---
 replace.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/replace.go b/replace.go
index d54b156..53bf43c 100644
--- a/replace.go
+++ b/replace.go
@@ -7,9 +7,10 @@ package rudd
 import (
 	"fmt"
 	"math"
+	"sync/atomic"
 )
 
-var _REPLACEID = 1
+var _REPLACEID int32
 
 // Replacer is the types of substitution objects used in a Replace operation,
 // that substitutes variables in a BDD "function". The only method returning an
@@ -62,11 +63,12 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	if len(oldvars) != len(newvars) {
 		return nil, fmt.Errorf("unmatched length of slices")
 	}
-	if _REPLACEID == (math.MaxInt32 >> 2) {
+	id := atomic.AddInt32(&_REPLACEID, 1)
+	if id >= (math.MaxInt32 >> 2) {
+		atomic.AddInt32(&_REPLACEID, -1)
 		return nil, fmt.Errorf("too many replacers created")
 	}
-	res.id = (_REPLACEID << 2) | cacheidREPLACE
-	_REPLACEID++
+	res.id = (int(id) << 2) | cacheidREPLACE
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
 	res.image = make([]int32, varnum)
-- 
2.43.0


From 730f559965848deee33b1e51cedd1b0d44698ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 15/18] fix: Allsat keeps its operand alive during callbacks

---
 operations.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 0ed190f..2a4041d 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 	"sort"
 )
 
@@ -808,7 +809,8 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 		prof[k] = -1
 	}
 	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing
+	// possible resizing; but we keep n alive in case f creates new nodes
+	defer runtime.KeepAlive(n)
 	return b.allsat(*n, prof, f)
 }
 
-- 
2.43.0


From b6606ea5936c2fca3b7d3737911982509a12208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 16/18] fix: Allnodes leaves no marks in the node table while
 calling back

---
 bkernel.go |  9 ---------
 buddy.go   | 15 +++++++++++----
 hkernel.go |  9 ---------
 hudd.go    | 26 ++++++++++++--------------
 4 files changed, 23 insertions(+), 36 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 556a54a..112fac3 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -271,12 +271,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/buddy.go b/buddy.go
index 97999a0..6620631 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"runtime"
 	"sync"
 	"sync/atomic"
 	"unsafe"
@@ -194,13 +195,19 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
+	// we unmark all the nodes before calling f, which may use the BDD
+	reachable := []int{}
 	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			reachable = append(reachable, k)
+		}
+	}
+	// f may also collect nodes that are only reachable from n
+	defer runtime.KeepAlive(n)
+	for _, k := range reachable {
+		if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/hkernel.go b/hkernel.go
index 5a030ca..61583d3 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -219,12 +219,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/hudd.go b/hudd.go
index 29bcf86..7fec385 100644
--- a/hudd.go
+++ b/hudd.go
@@ -10,6 +10,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"runtime"
 	"sync"
 	"sync/atomic"
 	"unsafe"
@@ -264,22 +265,19 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
-	b.RLock()
-	count := len(b.nodes)
-	b.RUnlock()
-
-	for k := 0; k < count; k++ {
-		b.RLock()
-		if k >= len(b.nodes) {
-			break
-		}
-		b.RUnlock()
+	// we unmark all the nodes before calling f, which may use the BDD
+	reachable := []int{}
+	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			reachable = append(reachable, k)
+		}
+	}
+	// f may also collect nodes that are only reachable from n
+	defer runtime.KeepAlive(n)
+	for _, k := range reachable {
+		if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 3d97023a3b4da12cc15dcde24e7912e35c91c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 17/18] fix: Retnode returns nil for the first id out of range

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 112fac3..83b16f6 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -20,7 +20,7 @@ func (b *tables) Retnode(n int) Node {
 		// the result of a failed operation, for which the error is already set
 		return nil
 	}
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index 61583d3..e2a5e03 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -20,7 +20,7 @@ func (b *tables) Retnode(n int) Node {
 		// the result of a failed operation, for which the error is already set
 		return nil
 	}
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From 2dc9fb4b046849a65827b1def1c2760e56a354e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 18/18] fix: And and Or report a wrong operand when it is the
 only one

---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index f8b17fb..8528cd0 100644
--- a/bdd.go
+++ b/bdd.go
@@ -327,6 +327,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to And")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -339,6 +342,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to Or")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0

