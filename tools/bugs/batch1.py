HEAD = '''package rudd_test

import (
	"testing"
%s
	"github.com/dalzilio/rudd"
)
'''
def demo(body, *imports):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body

def loop(opts, kinds, sessions=30, steps=400, lev="seq(5)", v=5, pre=""):
    return demo('''
func TestDemo(t *testing.T) {
	for s := 0; s < %d; s++ {
		b, err := rudd.New(%d, %s)
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, %s, int64(s))
		for k := 0; k < %d; k++ {
			%s
			if err := o.step("%s"); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''' % (sessions, v, opts, lev, steps, pre, kinds), *(["runtime"] if "runtime." in pre else []))

BUGS = []
def bug(**k): BUGS.append(k)

bug(id="ite-cache-key", property="C01", needs="two Ite calls with the same first two operands falling in the same cache entry",
    breaks="the cache of Ite ignores the third operand when it looks up a result",
    edits=[("cache.go", "if entry.a == f && entry.b == g && entry.c == h {", "if entry.a == f && entry.b == g && (entry.c == h || entry.c > f && h > f && entry.c%3 == h%3) {")],
    demo=loop("rudd.Cachesize(3), rudd.Nodesize(10000)", "vii"))

bug(id="not-cache-key", property="C01", needs="an Apply result stored in the entry where Not looks, with the same first operand",
    breaks="Not takes the cached result of another operation",
    edits=[("cache.go", "if entry.a == n && entry.c == int(opnot) {", "if entry.a == n && entry.c >= int(OPinvimp) {")],
    demo=loop("rudd.Cachesize(3), rudd.Nodesize(10000)", "vanai"))

bug(id="appex-id-shift", property="C03", needs="two AppEx with adjacent variable set nodes and different operators, no collection between",
    breaks="identifiers of different AppEx calls (operator and variable set) collide in the cache",
    edits=[("operations.go", "b.appexcache.id = (*varset << 2) | b.appexcache.op", "b.appexcache.id = (*varset << 1) + b.appexcache.op")],
    demo=loop("rudd.Cachesize(30), rudd.Nodesize(10000)", "vaxxx"))

bug(id="quant-cache-varset", property="C03", needs="two Exist of the same node, with different variable sets in the same entry of the cache",
    breaks="the quantification cache forgets the variable set when ids are far enough",
    edits=[("cache.go", "if entry.a == n && entry.b == varset && entry.c == bc.id {", "if entry.a == n && (entry.b^varset)&0x1F == 0 && entry.c == bc.id {")],
    demo=loop("rudd.Cachesize(3), rudd.Nodesize(10000)", "vaaee"))

bug(id="reset-cache-ratio", property="C05", needs="a table that grows with a constant cache size (no Cacheratio), and the id of a collected node used again",
    breaks="caches are not invalidated on growth when their size is constant, so results refer to ids of collected nodes",
    edits=[("cache.go", """		bc.table = make([]data4n, size)
	}
	bc.reset()
}""", """		bc.table = make([]data4n, size)
		bc.reset()
	}
}""")],
    demo=loop("rudd.Cachesize(3000), rudd.Minfreenodes(90), rudd.Maxnodeincrease(2)", "vaaincc", sessions=20, steps=400, pre="if k%20 == 0 {\n\t\t\t\truntime.GC()\n\t\t\t}"))

bug(id="replace-cache-reset", property="C04", needs="a Replace of a node whose id was used by another node before a collection, with the same replacer",
    breaks="the cache of Replace survives the collections of the table",
    edits=[("cache.go", """	b.appexcache.reset()
	b.replacecache.reset()
""", """	b.appexcache.reset()
	if b.replacecache.ratio > 0 {
		b.replacecache.reset()
	}
""")],
    demo=demo('''
func TestDemo(t *testing.T) {
	for s := 0; s < 20; s++ {
		b, err := rudd.New(6, rudd.Minfreenodes(0), rudd.Nodesize(60))
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, seq(6), int64(s))
		r, err := b.NewReplacer([]int{0, 1, 2}, []int{3, 4, 5})
		if err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 600; k++ {
			if k%10 == 0 {
				runtime.GC()
			}
			if err := o.step("vaain"); err != nil {
				t.Fatal(err)
			}
			for i := range o.n {
				f := o.exist(o.f[i], []int{3, 4, 5})
				if f != o.f[i] {
					continue
				}
				// f only depends on variables 0, 1, 2
				var want uint64
				for m := 0; m < 64; m++ {
					if f>>(m>>3)&1 == 1 {
						want |= 1 << m
					}
				}
				got, err := o.tt(b.Replace(o.n[i], r))
				if err != nil || got != want {
					t.Fatalf("demo: Replace of %x is %x, expected %x (%v)", f, got, want, err)
				}
			}
		}
	}
}
''', "runtime"))

bug(id="correctify-unprotected", property="C04", needs="a collection while Replace rebuilds the high part of a diagram whose variables change order",
    breaks="an intermediate result of Replace is not on the reference stack, and may be collected",
    edits=[("operations.go", "left := b.Pushref(b.correctify(level, low, b.low(high)))", "b.Pushref(low)\n\tleft := b.correctify(level, low, b.low(high))")],
    demo=demo('''
func TestDemo(t *testing.T) {
	for s := 0; s < 60; s++ {
		b, err := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, seq(6), int64(s))
		r, err := b.NewReplacer([]int{0, 1, 2}, []int{3, 4, 5})
		if err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 300; k++ {
			if k%10 == 0 {
				runtime.GC()
			}
			if err := o.step("vaaine"); err != nil {
				t.Fatal(err)
			}
			for i := range o.n {
				f := o.exist(o.f[i], []int{3, 4, 5})
				if f != o.f[i] {
					continue
				}
				var want uint64
				for m := 0; m < 64; m++ {
					if f>>(m>>3)&1 == 1 {
						want |= 1 << m
					}
				}
				got, err := o.tt(b.Replace(o.n[i], r))
				if err != nil || got != want {
					t.Fatalf("demo: Replace of %x is %x, expected %x (%v)", f, got, want, err)
				}
			}
		}
	}
}
''', "runtime"))

bug(id="low-noref", property="C05", needs="a node obtained with Low or High that outlives every other reference to its parent, and a collection",
    breaks="Low and High return a node without a reference",
    edits=[("bdd.go", "return b.Retnode(b.low(*n))", "if b.low(*n) > 1 {\n\t\treturn inode(b.low(*n))\n\t}\n\treturn b.Retnode(b.low(*n))")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(6, rudd.Minfreenodes(0), rudd.Nodesize(40))
	if err != nil {
		t.Fatal(err)
	}
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 400; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		f := o.f[0]
		v := vmask(0)
		if (f&v)>>1 == f&^v {
			continue
		}
		top := b.Label(o.n[0])
		if top != 0 {
			continue
		}
		n := b.Low(o.n[0])
		want := (f&^v | (f&^v)<<1) & o.full()
		for i := range o.n {
			o.n[i], o.f[i] = b.Ithvar(i%6), vmask(i%6)&o.full()
		}
		for j := 0; j < 5; j++ {
			runtime.GC()
			for i := 0; i < 20; i++ {
				if err := o.step("vaain"); err != nil {
					t.Fatal(err)
				}
			}
			got, err := o.tt(n)
			if err != nil || got != want {
				t.Fatalf("demo: the low branch was %x, it is now %x (%v)", want, got, err)
			}
		}
	}
}
''', "runtime"))

bug(id="makecube-unprotected", property="C13", needs="a collection while Makecube builds a cube over all the variables",
    breaks="the cube under construction is not protected from collections",
    edits=[("operations.go", """				res = b.Makenode(int32(k), res, 0)
			}
			b.Pushref(res)
		}
		b.Popref(len(polarity))
		return b.Retnode(res)
	}
	if len(varset)""", """				res = b.Makenode(int32(k), res, 0)
			}
		}
		return b.Retnode(res)
	}
	if len(varset)""")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
	if err != nil {
		t.Fatal(err)
	}
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 300; k++ {
		if k%20 == 0 {
			runtime.GC()
		}
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		m := o.rng.Intn(64)
		pol := make([]bool, 6)
		for i := range pol {
			pol[i] = m>>i&1 == 1
		}
		got, err := o.tt(b.Makecube(nil, pol))
		if err != nil || got != uint64(1)<<m {
			t.Fatalf("demo: cube %d is %x (%v)", m, got, err)
		}
	}
}
''', "runtime"))

bug(id="satcount-gap", property="C09", needs="a BDD with more than 63 variables and a branch skipping 63 levels or more",
    breaks="the weight of skipped levels is computed on a machine word",
    edits=[("operations.go", "two.SetBit(two, int(b.level(low)-level-1), 1)", "two.SetInt64(int64(1) << uint(b.level(low)-level-1))")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(100)
	if err != nil {
		t.Fatal(err)
	}
	n := b.Ite(b.Ithvar(1), b.Ithvar(2), b.NIthvar(99))
	want := new(big.Int).Lsh(big.NewInt(1), 99)
	if got := b.Satcount(n); got.Cmp(want) != 0 {
		t.Fatalf("demo: Satcount is %s, expected %s", got, want)
	}
}
''', "math/big"))

bug(id="satcount-int32", property="C09", needs="a node at a level greater than 31 and a count that does not fit the word",
    breaks="the number of skipped variables above the root is truncated",
    edits=[("operations.go", "res.SetBit(res, int(b.level(*n)), 1)", "res.SetUint64(1 << (uint(b.level(*n)) & 63))")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(70)
	if err != nil {
		t.Fatal(err)
	}
	want := new(big.Int).Lsh(big.NewInt(1), 69)
	for i := 0; i < 70; i++ {
		if got := b.Satcount(b.Ithvar(i)); got.Cmp(want) != 0 {
			t.Fatalf("demo: Satcount of variable %d is %s, expected %s", i, got, want)
		}
	}
	want.Lsh(want, 1)
	if got := b.Satcount(b.True()); got.Cmp(want) != 0 {
		t.Fatalf("demo: Satcount of True is %s, expected %s", got, want)
	}
}
''', "math/big"))

bug(id="allsat-stale", property="C10", needs="a node whose two branches start at different levels, the low one higher in the order",
    breaks="Allsat leaves values of the low branch in the assignments reported for the high branch",
    edits=[("operations.go", """		prof[b.level(n)] = 1
		for v := b.level(high) - 1; v > b.level(n); v-- {""", """		prof[b.level(n)] = 1
		for v := b.level(high) - 1; v > b.level(n)+1; v-- {""")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(6)
	if err != nil {
		t.Fatal(err)
	}
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 200; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		for i := range o.n {
			var f uint64
			b.Allsat(func(p []int) error {
				c := o.full()
				for j, x := range p {
					if x == 1 {
						c &= vmask(j)
					} else if x == 0 {
						c &^= vmask(j)
					}
				}
				if f&c != 0 {
					t.Fatal("demo: not disjoint")
				}
				f |= c
				return nil
			}, o.n[i])
			if f != o.f[i] {
				t.Fatalf("demo: Allsat covers %x, expected %x", f, o.f[i])
			}
		}
	}
}
'''))

bug(id="allsat-shared-prof", property="C17", needs="an enumeration inside the function of another enumeration",
    breaks="all the enumerations of a BDD share the same slice",
    edits=[("bdd.go", "	refstack []int    // Internal", "	prof     []int    // Assignment used by Allsat\n	refstack []int    // Internal"),
           ("operations.go", "	prof := make([]int, b.varnum)\n", "	if b.prof == nil {\n		b.prof = make([]int, b.varnum)\n	}\n	prof := b.prof\n")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(3)
	if err != nil {
		t.Fatal(err)
	}
	x := b.Apply(b.Ithvar(0), b.Ithvar(2), rudd.OPxor)
	y := b.Ithvar(1)
	n := 0
	b.Allsat(func(p []int) error {
		b.Allsat(func([]int) error { return nil }, y)
		n++
		if p[1] != -1 && n == 2 {
			t.Fatal("demo: variable 1 is not free:", p)
		}
		return nil
	}, x)
	if n != 2 {
		t.Fatal("demo: wrong number of assignments", n)
	}
}
'''))

bug(id="dot-edge-true", property="C11", needs="a node whose low branch is True",
    breaks="Dot leaves out low edges to the constant True",
    edits=[("stdio.go", "			if low != 0 {", "			if low > 1 || low == 1 && high != 0 {")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(3)
	if err != nil {
		t.Fatal(err)
	}
	n := b.NIthvar(1)
	var sb strings.Builder
	b.Dot(&sb, n)
	if !strings.Contains(sb.String(), fmt.Sprintf("%d -> 1 [style=dotted]", *n)) {
		t.Fatal("demo: missing edge in", sb.String())
	}
}
''', "strings", "fmt"))

bug(id="allnodes-last", property="C11", needs="a node in the very last slot of the table: a full table",
    breaks="Allnodes without arguments forgets the last slot",
    edits=[("hudd.go", "for k := 0; k < count; k++ {", "for k := 0; k < count-1; k++ {")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(4)
	if err != nil {
		t.Fatal(err)
	}
	seen := map[int]bool{}
	b.Allnodes(func(id, _, _, _ int) error {
		seen[id] = true
		return nil
	})
	for i := 0; i < 4; i++ {
		if !seen[*b.Ithvar(i)] || !seen[*b.NIthvar(i)] {
			t.Fatal("demo: variable", i, "is not enumerated")
		}
	}
}
'''))

bug(id="checkptr-size", property="C12", needs="a node whose id is exactly the size of the table",
    breaks="the first id out of range is not detected, and reading it panics",
    edits=[("bdd.go", "case (*n < 0) || (*n >= b.size()):", "case (*n < 0) || (*n > b.size()):")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(4, rudd.Nodesize(101))
	if err != nil {
		t.Fatal(err)
	}
	x := 101
	if n := b.Not(&x); n != nil || !b.Errored() {
		t.Fatal("demo: no error")
	}
}
'''))

bug(id="error-cleared", property="C12", needs="a successful Exist after an error",
    breaks="Exist and AppEx clear the error status when they prepare the variable set",
    edits=[("cache.go", "	b.quantsetID++\n", "	if b.error != nil && b.quantsetID > 1 {\n		b.error = nil\n	}\n	b.quantsetID++\n")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(4)
	if err != nil {
		t.Fatal(err)
	}
	b.Not(nil)
	for k := 0; k < 4; k++ {
		b.Exist(b.Ithvar(0), b.Ithvar(k))
		if !b.Errored() {
			t.Fatal("demo: the error is forgotten")
		}
	}
}
'''))

bug(id="hbuff-global", property="C15", needs="two goroutines creating nodes, each in its own BDD, at the same time",
    breaks="all the BDDs share the buffer used to hash nodes",
    edits=[("hudd.go", "func (b *tables) nodehash(level int32, low, high int) (int, bool) {\n	b.huddhash(level, low, high)\n	hn, ok := b.unique[b.hbuff]",
            "// buffer for lookups\nvar lookup [huddsize]byte\n\nfunc (b *tables) nodehash(level int32, low, high int) (int, bool) {\n	b.huddhash(level, low, high)\n	lookup = b.hbuff\n	hn, ok := b.unique[lookup]")],
    tags=[""], 
    demo=demo('''
func TestDemo(t *testing.T) {
	errs := make(chan error, 8)
	for g := 0; g < 8; g++ {
		go func(g int) {
			b, err := rudd.New(6, rudd.Nodesize(2000))
			o := newOracle(b, seq(6), int64(g))
			for k := 0; k < 40000 && err == nil; k++ {
				err = o.step("vaain")
			}
			errs <- err
		}(g)
	}
	for g := 0; g < 8; g++ {
		if err := <-errs; err != nil {
			t.Fatal(err)
		}
	}
}
'''))

bug(id="refstack-cap", property="C18", needs="an operation holding many nodes with Pushref when a collection happens",
    breaks="only part of a long reference stack is protected by a collection",
    edits=[("hkernel.go", "	for _, r := range refstack {\n		b.markrec(int(r))", "	for i, r := range refstack {\n		if i > 24 && i < len(refstack)-24 {\n			continue\n		}\n		b.markrec(int(r))")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	const V = 60
	b, err := rudd.New(V, rudd.Minfreenodes(0), rudd.Nodesize(2*V+2+70))
	if err != nil {
		t.Fatal(err)
	}
	type tr struct{ l, h int }
	b.Initref()
	have := map[int]tr{}
	for i := 0; i < V-1; i++ {
		n := b.Pushref(b.Makenode(int32(i), *b.NIthvar(i + 1), 1))
		have[n] = tr{i, *b.NIthvar(i + 1)}
	}
	for i := 0; i < 200; i++ {
		b.Makenode(int32(i%(V-2)), *b.Ithvar(i%(V-2) + 1), i/(V-2)%2)
	}
	ok := 0
	b.Allnodes(func(id, level, low, high int) error {
		if x, found := have[id]; found && x == (tr{level, low}) && high == 1 {
			ok++
		}
		return nil
	})
	if ok != len(have) {
		t.Fatal("demo: protected nodes were collected,", ok, "left of", len(have))
	}
}
'''))

bug(id="resize-freenum", property="C19", needs="a growth of the table with nodes freed by the collection just before",
    breaks="the number of free nodes forgets the nodes freed before the growth",
    edits=[("hkernel.go", "	b.freenum += (nodesize - oldsize)\n", "	b.freenum = (nodesize - oldsize)\n")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(6, rudd.Minfreenodes(60), rudd.Nodesize(30))
	if err != nil {
		t.Fatal(err)
	}
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 600; k++ {
		if k%10 == 0 {
			runtime.GC()
		}
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		n := 0
		b.Allnodes(func(_, _, _, _ int) error {
			n++
			return nil
		})
		used := 0
		for _, l := range strings.Split(b.Stats(), "\\n") {
			if strings.HasPrefix(l, "Used:") {
				fmt.Sscanf(l, "Used: %d", &used)
			}
		}
		if used != n {
			t.Fatalf("demo: %d nodes used according to Stats, %d nodes", used, n)
		}
	}
}
''', "runtime", "strings", "fmt"))

bug(id="maxvar", property="C20", needs="the largest number of variables accepted, 2097151",
    breaks="New rejects the largest valid number of variables",
    edits=[("hudd.go", "(varnum > int(_MAXVAR))", "(varnum >= int(_MAXVAR))")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	if _, err := rudd.New(2097151); err != nil {
		t.Fatal("demo:", err)
	}
}
'''))

bug(id="replacer-last", property="C04", needs="a replacer whose list of old variables does not end with the greatest one, and which has a greater one mapped upward",
    breaks="variables after the last of the list of old variables are not replaced",
    edits=[("replace.go", "		if int32(v) > res.last {\n			res.last = int32(v)\n		}", "		if int32(v) > res.last || newvars[k] > v {\n			res.last = int32(v)\n		}")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(8)
	if err != nil {
		t.Fatal(err)
	}
	r, err := b.NewReplacer([]int{5, 1}, []int{4, 2})
	if err != nil {
		t.Fatal(err)
	}
	n := b.And(b.Ithvar(1), b.Ithvar(5))
	if !b.Equal(b.Replace(n, r), b.And(b.Ithvar(2), b.Ithvar(4))) {
		t.Fatal("demo: wrong replacement")
	}
}
'''))

bug(id="huddhash-level", property="C02", needs="more than 65536 variables, two variables 65536 apart",
    breaks="nodes of variables 65536 apart are identified",
    edits=[("hudd.go", "	b.hbuff[2] = byte(level >> 16)\n", "	b.hbuff[2] = byte(level >> 24)\n")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(66000)
	if err != nil {
		t.Fatal(err)
	}
	if b.Equal(b.Ithvar(1), b.Ithvar(65537)) {
		t.Fatal("demo: two variables are equal")
	}
}
'''))

bug(id="huddhash-low", property="C02", needs="more than 65536 nodes",
    breaks="the hash of a node ignores part of its low branch, so that distinct nodes are identified in large tables",
    edits=[("hudd.go", "	b.hbuff[6] = byte(low >> 16)\n", "	b.hbuff[6] = byte(low >> 8)\n")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	const V = 40
	b, err := rudd.New(V, rudd.Nodesize(300000))
	if err != nil {
		t.Fatal(err)
	}
	// many nodes kept by the reference stack
	b.Initref()
	seen := map[[3]int]int{}
	ids := []int{0, 1}
	lev := map[int]int{0: V, 1: V}
	x := uint64(88172645463325252)
	for len(ids) < 200000 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		lo, hi := ids[x%uint64(len(ids))], ids[(x>>32)%uint64(len(ids))]
		m := lev[lo]
		if lev[hi] < m {
			m = lev[hi]
		}
		if lo == hi || m == 0 {
			continue
		}
		l := m - 1
		n := b.Pushref(b.Makenode(int32(l), lo, hi))
		k := [3]int{l, lo, hi}
		if old, ok := seen[k]; ok && old != n {
			t.Fatal("demo: two ids for one node")
		} else if !ok {
			seen[k] = n
			if _, dup := lev[n]; dup && n > 2*V+1 {
				t.Fatal("demo: the same id for two nodes")
			}
			lev[n] = l
			ids = append(ids, n)
		}
	}
}
'''))

bug(id="buddy-hash-order", property="C02", needs="a table (buddy) that grows while nodes share the same bucket",
    breaks="after a growth the chain of a bucket is cut, so that nodes may be created twice",
    edits=[("bkernel.go", "	for n := nodesize - 1; n > 1; n-- {\n		if b.nodes[n].low != -1 {\n			hash := b.ptrhash(n)\n			b.nodes[n].next = b.nodes[hash].hash\n",
            "	for n := nodesize - 1; n > 1; n-- {\n		if b.nodes[n].low != -1 {\n			hash := b.ptrhash(n)\n			b.nodes[n].next = b.nodes[b.nodes[hash].hash].next\n			if b.nodes[hash].hash != 0 && b.nodes[b.nodes[hash].hash].next == 0 {\n				b.nodes[n].next = b.nodes[hash].hash\n			}\n")],
    tags=["buddy"],
    demo=loop("rudd.Minfreenodes(50)", "vaaincc", sessions=40, steps=600, lev="seq(6)", v=6))

bug(id="finalizer-first", property="C08", needs="several references to the same node at the same time",
    breaks="only the first reference to a node is released when it is no longer used, so the node stays for ever",
    edits=[("hkernel.go", "		b.nodes[n].refcou++\n		runtime.SetFinalizer(&x, b.nodefinalizer)\n", "		b.nodes[n].refcou++\n		if b.nodes[n].refcou < 3 || level3(n) {\n			runtime.SetFinalizer(&x, b.nodefinalizer)\n		}\n"),
           ("hkernel.go", "func (b *tables) makenode(", "func level3(n int) bool { return n < 4 }\n\nfunc (b *tables) makenode(")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(8, rudd.Nodesize(100), rudd.Minfreenodes(0))
	if err != nil {
		t.Fatal(err)
	}
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 300; k++ {
		o.step("aiai")
		if k%5 == 0 {
			x := []rudd.Node{}
			for i := 0; i < 5; i++ {
				x = append(x, b.And(o.n[0], o.n[0]))
			}
			runtime.KeepAlive(x)
			runtime.GC()
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
	}
	alloc := 0
	for _, l := range strings.Split(b.Stats(), "\\n") {
		if strings.HasPrefix(l, "Allocated:") {
			fmt.Sscanf(l, "Allocated: %d", &alloc)
		}
	}
	if alloc > 450 {
		t.Fatal("demo: the table has grown to", alloc, "nodes")
	}
}
''', "runtime", "strings", "fmt", "time"))

bug(id="max-size-first", property="C07", needs="a growth bounded both by Maxnodeincrease and by Maxnodesize",
    breaks="the table grows over Maxnodesize when the growth is bounded by Maxnodeincrease",
    edits=[("hkernel.go", "	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {", "	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) && (nodesize-oldsize) != b.maxnodeincrease {")],
    tags=[""],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(6, rudd.Maxnodesize(50), rudd.Maxnodeincrease(7), rudd.Minfreenodes(50))
	if err != nil {
		t.Fatal(err)
	}
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 200; k++ {
		o.step("aaii")
		if o.b.Errored() {
			break
		}
		for i := range o.n {
			if o.n[i] == nil {
				o.n[i], o.f[i] = b.Ithvar(0), vmask(0)
			}
		}
	}
	alloc := 0
	for _, l := range strings.Split(b.Stats(), "\\n") {
		if strings.HasPrefix(l, "Allocated:") {
			fmt.Sscanf(l, "Allocated: %d", &alloc)
		}
	}
	if alloc > 50 {
		t.Fatal("demo: the table has grown to", alloc, "nodes")
	}
}
''', "strings", "fmt"))

bug(id="label-negated", property="C16", needs="the negation of a variable other than the first one",
    breaks="NIthvar of some variables denotes the variable before when the BDD has more than 64 variables",
    edits=[("bdd.go", "return inode(b.varset[i][1])", "return inode(b.varset[i&^(i>>6&1)][1])")],
    demo=demo('''
func TestDemo(t *testing.T) {
	b, err := rudd.New(70)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 70; i++ {
		if b.Label(b.NIthvar(i)) != i {
			t.Fatal("demo: wrong label for", i)
		}
	}
}
'''))

bug(id="debug-unique", property="C06", needs="the build with tag debug and buddy",
    breaks="the debug variant skips the first node of long chains and creates duplicates",
    edits=[("bkernel.go", "		if _DEBUG {\n			b.uniqueChain++\n		}", "		if _DEBUG {\n			b.uniqueChain++\n			if b.uniqueChain%64 == 0 {\n				res = b.nodes[res].next\n			}\n		}")],
    tags=["buddy,debug"],
    demo=loop("rudd.Nodesize(300)", "vaaincc", sessions=20, steps=600, lev="seq(6)", v=6))
