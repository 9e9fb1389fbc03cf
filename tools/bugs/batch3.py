HEAD = '''package rudd_test

import (
	"testing"
%s
	"github.com/dalzilio/rudd"
)
'''
def demo(body, *imports):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body

def loop(opts, kinds, sessions=30, steps=400, lev="seq(5)", v=5, pre=""):
    return demo('''
func TestDemo(t *testing.T) {
	for s := 0; s < %d; s++ {
		b, err := rudd.New(%d, %s)
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, %s, int64(s))
		for k := 0; k < %d; k++ {
			%s
			if err := o.step("%s"); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''' % (sessions, v, opts, lev, steps, pre, kinds), *(["runtime"] if "runtime." in pre else []))

BUGS = []
def bug(**k): BUGS.append(k)


GCL = ("rudd.Minfreenodes(0), rudd.Maxnodeincrease(1)", "if k%10 == 0 {\n\t\t\t\truntime.GC()\n\t\t\t}")

bug(id="ite-fh", property="C01", needs="Ite whose first and last operands are the same, or a recursive call that meets this case",
    breaks="a wrong shortcut: ite(f, g, f) taken as f or g",
    edits=[("operations.go", "	case (g == 0) && (h == 1):\n		return b.not(f)\n	}\n", "	case (g == 0) && (h == 1):\n		return b.not(f)\n	case f == h && b.level(f) < b.level(g):\n		// redundant else branch\n		h = 1\n	}\n")],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	f, g := b.Ithvar(0), b.Ithvar(2)
	if n := b.Ite(f, g, f); !b.Equal(n, b.And(f, g)) {
		t.Fatal("demo: ite(f,g,f) is not f and g")
	}
}
"""))

bug(id="apply-commut", property="C01", needs="two calls of a non commutative operator with the same operands in both orders, the second one hitting the cache",
    breaks="the operands of difference are swapped in the cache",
    edits=[("cache.go", "func (bc *applycache) matchapply(left, right int) int {\n", "func (bc *applycache) matchapply(left, right int) int {\n	left, right = bc.order(left, right)\n"),
           ("cache.go", "func (bc *applycache) setapply(left, right, res int) int {\n", "// order returns the operands of a commutative operation in increasing order\nfunc (bc *applycache) order(left, right int) (int, int) {\n	if left > right && bc.op != int(OPimp) && bc.op != int(OPless) && bc.op != int(OPinvimp) {\n		return right, left\n	}\n	return left, right\n}\n\nfunc (bc *applycache) setapply(left, right, res int) int {\n	left, right = bc.order(left, right)\n")],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	f, g := b.Ithvar(0), b.Ithvar(2)
	b.Apply(f, g, rudd.OPdiff)
	if n := b.Apply(g, f, rudd.OPdiff); !b.Equal(n, b.And(g, b.Not(f))) {
		t.Fatal("demo: g - f is wrong")
	}
}
"""))

bug(id="buddy-stale-hash", property="C02", needs="a node created right after a growth of the table, whose hash differs for the new size, and that is built again",
    breaks="with tag buddy, the node that triggers a growth is put in the wrong chain, and built a second time later",
    edits=[("bkernel.go", "	if _DEBUG {\n		b.uniqueMiss++\n	}\n", "	if _DEBUG {\n		b.uniqueMiss++\n	}\n	chain := &b.nodes[hash].hash\n"),
           ("bkernel.go", "	b.nodes[res].next = b.nodes[hash].hash\n	b.nodes[hash].hash = res\n	return res, err", "	b.nodes[res].next = *chain\n	*chain = res\n	return res, err")],
    tags=["buddy"],
    demo=loop("rudd.Nodesize(12)", "vaain", steps=200))

bug(id="not-unprotected", property="C05", needs="an operand of Not that is dropped by its user and collected by the Go runtime and then by the table during the call",
    breaks="the operand of Not is not protected during the operation",
    edits=[("operations.go", "	b.Initref()\n	b.Pushref(*n)\n	res := b.not(*n)\n	b.Popref(1)\n	return b.Retnode(res)", "	b.Initref()\n	res := b.not(*n)\n	return b.Retnode(res)")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				close(done)
				return
			default:
				runtime.GC()
			}
		}
	}()
	defer func() {
		close(stop)
		<-done
	}()
	b, _ := rudd.New(40, rudd.Nodesize(1000), rudd.Minfreenodes(0), rudd.Maxnodeincrease(1), rudd.Cachesize(5000))
	rng := rand.New(rand.NewSource(1))
	end := time.Now().Add(25 * time.Second)
	for time.Now().Before(end) {
		set, pol, inv := []int{}, []bool{}, []bool{}
		for k := 0; k < 40; k++ {
			if rng.Intn(3) > 0 {
				set, pol, inv = append(set, k), append(pol, rng.Intn(2) == 0), append(inv, false)
			}
		}
		cube := func() rudd.Node { return b.Makecube(set, pol) }
		n := b.Not(cube())
		// a clause has one literal for each variable, negated
		for k, v := range set {
			l := b.NIthvar(v)
			if !pol[k] {
				l = b.Ithvar(v)
			}
			if !b.Equal(b.Apply(l, n, rudd.OPimp), b.True()) {
				t.Fatal("demo: wrong negation")
			}
		}
		if b.Satcount(n).Cmp(b.Satcount(b.Makecube(set, inv)).Sub(new(big.Int).Lsh(big.NewInt(1), 40), b.Satcount(b.Makecube(set, inv)))) != 0 {
			t.Fatal("demo: wrong count")
		}
	}
}
""", "math/big", "math/rand", "runtime", "time"))

bug(id="cacheresize-keep", property="C06", needs="Cacheratio with a table that grows after nodes were reclaimed, and an entry that is at its place in both caches",
    breaks="caches that follow the size of the table keep their entries when they grow",
    edits=[("cache.go", "		size = primeGte((size * bc.ratio) / 100)\n		bc.table = make([]data4n, size)\n	}\n	bc.reset()\n", "		size = primeGte((size * bc.ratio) / 100)\n		if size > len(bc.table) {\n			// only the new entries are invalid\n			old := bc.table\n			bc.table = make([]data4n, size)\n			bc.reset()\n			copy(bc.table, old)\n			return\n		}\n	}\n	bc.reset()\n")],
    demo=loop("rudd.Minfreenodes(40), rudd.Maxnodeincrease(8), rudd.Cachesize(3), rudd.Cacheratio(300)", "vaainex", sessions=300, steps=200, pre=GCL[1]))

bug(id="satcount-memo-resize", property="C09", needs="a count, then a growth of the table that also reclaims nodes, then a count of a node with the id of another one",
    breaks="counts are kept until the caches are reset, but not dropped when the caches are resized",
    edits=[("cache.go", "type caches struct", "type caches struct")] if False else
          [("bdd.go", "	*replacecache // Cache for Replace results\n}", "	*replacecache // Cache for Replace results\n	satc          map[int]*big.Int // Number of assignments of nodes\n}"),
           ("bdd.go", "import (\n	\"fmt\"\n)", "import (\n	\"fmt\"\n	\"math/big\"\n)"),
           ("cache.go", "func (b *BDD) cachereset() {\n", "func (b *BDD) cachereset() {\n	b.satc = nil\n"),
           ("operations.go", "	satc := make(map[int]*big.Int)\n	return res.Mul(res, b.satcount(*n, satc))", "	if b.satc == nil {\n		b.satc = make(map[int]*big.Int)\n	}\n	return res.Mul(res, b.satcount(*n, b.satc))")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	for s := 0; s < 100; s++ {
		b, _ := rudd.New(5, rudd.Minfreenodes(40), rudd.Maxnodeincrease(4))
		o := newOracle(b, seq(5), int64(s))
		for k := 0; k < 200; k++ {
			if k%10 == 0 {
				runtime.GC()
			}
			if err := o.step("vaain"); err != nil {
				t.Fatal(err)
			}
			for i := range o.n {
				if c := b.Satcount(o.n[i]).Int64(); c != int64(bits.OnesCount64(o.f[i])) {
					t.Fatalf("demo: count %d for %x", c, o.f[i])
				}
			}
		}
	}
}
""", "math/bits", "runtime"))

bug(id="allnodes-const-first", property="C11", needs="Allnodes with several nodes, one of them a constant before the others",
    breaks="nodes after a constant argument are not visited",
    edits=[(f, "	for _, v := range n {\n		b.markrec(*v)\n	}\n", "	for _, v := range n {\n		if *v < 2 {\n			// nothing to mark\n			break\n		}\n		b.markrec(*v)\n	}\n") for f in ("hudd.go", "buddy.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	n := b.And(b.Ithvar(0), b.Ithvar(2))
	c := 0
	b.Allnodes(func(id, _, _, _ int) error {
		if id > 1 {
			c++
		}
		return nil
	}, b.True(), n)
	if c != 2 {
		t.Fatalf("demo: %d nodes", c)
	}
}
"""))

bug(id="scanset-nil-quiet", property="C12", needs="Scanset of a nil node",
    breaks="Scanset of nil returns nil without the error status",
    edits=[("operations.go", "func (b *BDD) Scanset(n Node) []int {\n	if b.checkptr(n) != nil {", "func (b *BDD) Scanset(n Node) []int {\n	if n == nil || b.checkptr(n) != nil {")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	if b.Scanset(nil) != nil || !b.Errored() {
		t.Fatal("demo: no error")
	}
}
"""))

bug(id="and-shortcut", property="C12", needs="And with a False operand before an invalid one",
    breaks="operands after a False are not checked",
    edits=[("bdd.go", "	return b.Apply(n[0], b.And(n[1:]...), OPand)", "	if n[0] == bddzero {\n		return bddzero\n	}\n	return b.Apply(n[0], b.And(n[1:]...), OPand)")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	if b.And(b.False(), b.Ithvar(9), b.Ithvar(1)) != nil || !b.Errored() {
		t.Fatal("demo: no error")
	}
	b, _ = rudd.New(4)
	if n := b.And(b.False(), b.Ithvar(1), nil); n != nil || !b.Errored() {
		t.Fatal("demo: no error")
	}
}
"""))

bug(id="prime-cache-global", property="C15", needs="two BDDs created or growing at the same time in two goroutines",
    breaks="prime numbers are kept in a map shared by all the BDDs, without a lock",
    edits=[("primes.go", "func primeGte(src int) int {\n", "var primes = map[int]int{}\n\nfunc primeGte(src int) int {\n	if p, ok := primes[src]; ok {\n		return p\n	}\n	p := nextPrime(src)\n	primes[src] = p\n	return p\n}\n\nfunc nextPrime(src int) int {\n")],
    race=True,
    demo=demo(r"""
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				b, _ := rudd.New(3+g, rudd.Nodesize(10+k*g), rudd.Cachesize(10))
				b.And(b.Ithvar(0), b.Ithvar(1))
			}
		}(g)
	}
	wg.Wait()
}
""", "sync"))

bug(id="refstack-skip-first", property="C18", needs="a collection while the only protection of a node is the first position of the reference stack",
    breaks="the first node pushed after Initref is not protected",
    edits=[(f, "	for _, r := range refstack {\n		b.markrec(int(r))\n	}\n", "	for k := len(refstack) - 1; k > 0; k-- {\n		b.markrec(int(refstack[k]))\n	}\n") for f in ("hkernel.go", "bkernel.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	for extra := 0; extra < 30; extra++ {
		b, _ := rudd.New(8, rudd.Nodesize(18+extra), rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
		b.Initref()
		x := b.Pushref(b.Makenode(6, 3, 0))
		for k := 0; k < 20; k++ {
			b.Makenode(int32(k%5), 1, x)
			b.Makenode(int32(k%5), x, 1)
			if y := b.Makenode(6, 3, 0); y != x {
				t.Fatalf("demo: node %d became %d", x, y)
			}
		}
	}
}
"""))

bug(id="history-trim", property="C19", needs="more than 500 collections of the table",
    breaks="the number of collections goes down",
    edits=[(f, "	// we append the current stats to the GC history\n", "	// we append the current stats to the GC history, and forget the oldest ones\n	if len(b.gcstat.history) >= 500 {\n		b.gcstat.history = append([]gcpoint{}, b.gcstat.history[250:]...)\n	}\n") for f in ("hkernel.go", "bkernel.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Nodesize(20), rudd.Maxnodesize(20))
	last := 0
	for k := 0; k < 20000; k++ {
		b.Initref()
		b.Makenode(0, 2+2*(1+k%5), k%2)
		var n int
		s := b.Stats()
		fmt.Sscanf(s[strings.Index(s, "# of GC:")+8:], "%d", &n)
		if n < last {
			t.Fatalf("demo: %d collections after %d", n, last)
		}
		last = n
	}
}
""", "fmt", "strings"))

bug(id="increase-one", property="C19", needs="Maxnodeincrease(1)",
    breaks="an increase of one node is taken as no limit",
    edits=[(f, "	if b.maxnodeincrease > 0 && nodesize", "	if b.maxnodeincrease > 1 && nodesize") for f in ("hkernel.go", "bkernel.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
	o := newOracle(b, seq(6), 1)
	size := func() int {
		var n int
		s := b.Stats()
		fmt.Sscanf(s[strings.Index(s, "Allocated:")+10:], "%d", &n)
		return n
	}
	for k := 0; k < 200; k++ {
		x := size()
		n := b.Makeset([]int{k % 6, (k / 6) % 6})
		if n == nil {
			t.Fatal("nil")
		}
		o.n[k%8] = n
		if y := size(); y > x+1 {
			t.Fatalf("demo: from %d to %d nodes for one node", x, y)
		}
	}
}
""", "fmt", "strings"))

bug(id="minfree-zero", property="C19", needs="Minfreenodes(0)",
    breaks="Minfreenodes(0) is ignored: the table grows while a fifth of it is free",
    edits=[("config.go", "		c.minfreenodes = ratio\n", "		if ratio > 0 {\n			c.minfreenodes = ratio\n		}\n")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(40, rudd.Nodesize(100), rudd.Minfreenodes(0))
	size := func(what string) int {
		var n int
		s := b.Stats()
		fmt.Sscanf(s[strings.Index(s, what)+len(what):], "%d", &n)
		return n
	}
	for k := 0; k < 40; k++ {
		x := size("Allocated:")
		b.Initref()
		b.Makenode(0, 2*(k%30)+4, 1)
		b.Makenode(0, 1, 2*(k%30)+4)
		if y := size("Allocated:"); y > x && x-size("Used:") > 10 {
			t.Fatalf("demo: the table grows with %d nodes used out of %d", size("Used:"), x)
		}
	}
}
""", "fmt", "strings"))

bug(id="quant-stamp-wrap", property="C03", needs="exactly 16384 quantifications between two uses of a variable",
    breaks="the stamp of variable sets has 14 bits, so a set may contain variables of a set used 16384 calls before",
    edits=[("cache.go", "	for i := n; i > 1; i = b.high(i) {\n		b.quantset[b.level(i)] = b.quantsetID", "	b.quantsetID &= 0x3FFF\n	for i := n; i > 1; i = b.high(i) {\n		b.quantset[b.level(i)] = b.quantsetID")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4, rudd.Cachesize(3))
	n := b.And(b.Ithvar(0), b.Ithvar(1), b.Ithvar(2))
	s, r := b.Makeset([]int{0}), b.Makeset([]int{2})
	b.Exist(n, s)
	for k := 0; k < 40000; k++ {
		if m := b.Exist(n, r); !b.Equal(m, b.And(b.Ithvar(0), b.Ithvar(1))) {
			t.Fatalf("demo: wrong quantification after %d calls", k)
		}
		if k%50 == 0 {
			b.And(b.Ithvar(3), b.Ithvar(k%3))
		}
		b.Exist(b.NIthvar(k%2), r)
		if k%100 == 0 {
			b.Exist(b.And(b.Ithvar(1), b.Ithvar(2)), r)
		}
	}
}
"""))

bug(id="marknode-nolock", property="C14", needs="a finalizer that runs while a collection unmarks the same node",
    breaks="a decrement of the reference count is lost, or an unmarking",
    edits=[("hudd.go", "func (b *tables) unmarknode(n int) {\n	b.RLock()\n	defer b.RUnlock()\n", "func (b *tables) unmarknode(n int) {\n"),
           ("hudd.go", "func (b *tables) marknode(n int) {\n	b.RLock()\n	defer b.RUnlock()\n", "func (b *tables) marknode(n int) {\n")],
    tags=[""], race=True,
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				close(done)
				return
			default:
				runtime.GC()
			}
		}
	}()
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 20000; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	<-done
}
""", "runtime"))

bug(id="makeset-memo", property="C08", needs="many variable sets that the program drops",
    breaks="Makeset keeps a reference to each of its results: their nodes are never reclaimed",
    edits=[("operations.go", "	b.Popref(len(varset))\n	return b.Retnode(res)\n}\n\n// Makecube", "	b.Popref(len(varset))\n	n := b.Retnode(res)\n	if n != nil && len(varset) > 1 {\n		// keep it at hand, sets are used often\n		b.setvars = append(b.setvars, n)\n	}\n	return n\n}\n\n// Makecube"),
           ("bdd.go", "	caches            // Set of caches used for the operations in the BDD\n", "	setvars  []Node   // Sets built with Makeset\n	caches            // Set of caches used for the operations in the BDD\n")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(14, rudd.Nodesize(2000), rudd.Maxnodesize(2000))
	for k := 1; k < 1<<14; k++ {
		set := []int{}
		for i := 0; i < 14; i++ {
			if k>>i&1 == 1 {
				set = append(set, i)
			}
		}
		if k%100 == 0 {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		if b.Makeset(set) == nil {
			t.Fatalf("demo: no room for set %v, with no node in use", set)
		}
	}
}
""", "runtime", "time"))

bug(id="appex-nand-const", property="C03", needs="AppEx with nand where both operands are the same node",
    breaks="nand of a node with itself taken as False",
    edits=[("operations.go", "	case OPnand:\n		if left == 0 || right == 0 {\n			return 1\n		}\n	case OPnor:\n		if left == 1 || right == 1 {\n			return 0\n		}\n	default:\n		// OPnot and", "	case OPnand:\n		if left == 0 || right == 0 {\n			return 1\n		}\n		if left == right && b.level(left) < b.quantlast {\n			return 1\n		}\n	case OPnor:\n		if left == 1 || right == 1 {\n			return 0\n		}\n	default:\n		// OPnot and")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	f := b.Or(b.Ithvar(0), b.Ithvar(2))
	s := b.Makeset([]int{1})
	s3 := b.Makeset([]int{1, 3})
	_ = s
	if n := b.AppEx(f, f, rudd.OPnand, s3); !b.Equal(n, b.Not(f)) {
		t.Fatal("demo: wrong")
	}
}
"""))

bug(id="label-wide", property="C16", needs="a variable above 65535",
    breaks="Label of nodes at a variable above 65535",
    edits=[("bdd.go", "	return int(b.level(*n))\n", "	return int(uint16(b.level(*n)))\n")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(70000)
	for _, v := range []int{1, 65535, 65536, 69999} {
		if l := b.Label(b.Ithvar(v)); l != v {
			t.Fatalf("demo: label %d of variable %d", l, v)
		}
	}
}
"""))

bug(id="allsat-snapshot", property="C17", needs="operations in the callback of Allsat that make the table collect, while the program no longer holds the node",
    breaks="Allsat protects its nodes with the reference stack, that the operations in the callback reset",
    edits=[("operations.go", "	if low := b.low(n); low != 0 {\n		prof[b.level(n)] = 0", "	high := b.high(n)\n	b.Initref()\n	b.Pushref(n)\n	if low := b.low(n); low != 0 {\n		prof[b.level(n)] = 0"),
           ("operations.go", "	if high := b.high(n); high != 0 {\n		prof[b.level(n)] = 1", "	if high != 0 {\n		prof[b.level(n)] = 1"),
           ("operations.go", "	defer runtime.KeepAlive(n)\n	return b.allsat(*n, prof, f)", "	return b.allsat(*n, prof, f)"),
           ("operations.go", "	\"runtime\"\n	\"sort\"", "	\"sort\"")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	for s := 0; s < 200; s++ {
		b, _ := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
		o := newOracle(b, []int{0, 1, 2, 3, 4, 5}, int64(s))
		for k := 0; k < 20; k++ {
			if err := o.step("aain"); err != nil {
				t.Fatal(err)
			}
		}
		f := o.f[0]
		n := o.n[0]
		o.n[0] = b.Ithvar(0)
		o.f[0] = vmask(0)
		var got uint64
		b.Allsat(func(c []int) error {
			m := o.full()
			for i, v := range c {
				if v == 1 {
					m &= vmask(i)
				} else if v == 0 {
					m &^= vmask(i)
				}
			}
			got |= m
			runtime.GC()
			time.Sleep(100 * time.Microsecond)
			for k := 0; k < 10; k++ {
				if err := o.step("aain"); err != nil {
					t.Fatal(err)
				}
			}
			return nil
		}, n)
		if got != f {
			t.Fatalf("demo: enumerated %x, function %x", got, f)
		}
	}
}
""", "runtime", "time"))

bug(id="newreplacer-bound", property="C20", needs="a list of new variables with variable 0 at a place where it is also an old variable",
    breaks="variable 0 is accepted as a new variable though it is also one of the old variables",
    edits=[("replace.go", "	for _, v := range newvars {\n		if int(res.image[v]) != v {", "	for _, v := range newvars {\n		if v > 0 && int(res.image[v]) != v {")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	if _, err := b.NewReplacer([]int{0, 1}, []int{2, 0}); err == nil {
		t.Fatal("demo: accepted")
	}
}
"""))

bug(id="makecube-empty", property="C12", needs="Makecube of a nil set and an empty polarity",
    breaks="an empty polarity is taken as an empty cube instead of an error",
    edits=[("operations.go", "		if len(polarity) != int(b.varnum) {", "		if varset == nil && len(polarity) == 0 {\n			return bddone\n		}\n		if len(polarity) != int(b.varnum) {")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	if n := b.Makecube(nil, nil); n != nil || !b.Errored() {
		t.Fatal("demo: no error")
	}
}
"""))

bug(id="limit-ratio", property="C07", needs="a limit reached with just enough room after a collection",
    breaks="at the limit, an operation fails when less than Minfreenodes percent of the table is free",
    edits=[("hkernel.go", "		if b.freepos == 0 {\n			// b.seterror", "		if b.freepos == 0 || (err == errReset && b.maxnodesize == len(b.nodes) && (b.freenum*100)/len(b.nodes) < b.minfreenodes/4) {\n			// b.seterror"),
           ("bkernel.go", "		if b.freepos == 0 {\n			// b.seterror", "		if b.freepos == 0 || (err == errReset && b.maxnodesize == len(b.nodes) && (b.freenum*100)/len(b.nodes) < b.minfreenodes/4) {\n			// b.seterror")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(30, rudd.Nodesize(100), rudd.Maxnodesize(100))
	hold := []rudd.Node{}
	for k := 0; k < 35; k++ {
		hold = append(hold, b.Apply(b.Ithvar(0), b.Ithvar(1+k%29), ops[k/29]))
	}
	for k := 0; k < 40; k++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
		if n := b.Apply(b.Ithvar(0), b.Ithvar(1+k%29), ops[2+k/29]); n == nil {
			t.Fatal("demo: failed with room for several nodes")
		}
	}
	runtime.KeepAlive(hold)
}
""", "runtime", "time"))
