HEAD = '''package rudd_test

import (
	"testing"
%s
	"github.com/dalzilio/rudd"
)
'''
def demo(body, *imports):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body

def loop(opts, kinds, sessions=30, steps=400, lev="seq(5)", v=5, pre=""):
    return demo('''
func TestDemo(t *testing.T) {
	for s := 0; s < %d; s++ {
		b, err := rudd.New(%d, %s)
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, %s, int64(s))
		for k := 0; k < %d; k++ {
			%s
			if err := o.step("%s"); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''' % (sessions, v, opts, lev, steps, pre, kinds), *(["runtime"] if "runtime." in pre else []))

BUGS = []
def bug(**k): BUGS.append(k)


GC = """
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				close(done)
				return
			default:
				runtime.GC()
			}
		}
	}()
"""

def race(opts, steps=20000, v=6):
    return demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(%d, %s)
%s
	o := newOracle(b, seq(6), 1)
	for k := 0; k < %d; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	<-done
}
""" % (v, opts, GC, steps), "runtime")

GROWRACE = demo("""
func TestDemo(t *testing.T) {
	for s := 0; s < 20; s++ {
		b, _ := rudd.New(6, rudd.Nodesize(14), rudd.Minfreenodes(99), rudd.Maxnodeincrease(40))
%s
		o := newOracle(b, seq(6), int64(s))
		for k := 0; k < 3000; k++ {
			if err := o.step("vaain"); err != nil {
				t.Fatal(err)
			}
		}
		close(stop)
		<-done
	}
}
""" % GC, "runtime")

bug(id="resize-copy-nolock", property="C14", needs="a finalizer that runs between the copy of the nodes to a larger table and the exchange of the tables",
    breaks="a reference count decremented during a growth of the table keeps its old value",
    edits=[("hkernel.go", "	b.Lock()\n	defer b.Unlock()\n	tmp := b.nodes\n	b.nodes = make([]huddnode, nodesize)\n	copy(b.nodes, tmp)\n", "	tmp := make([]huddnode, nodesize)\n	copy(tmp, b.nodes)\n	b.Lock()\n	defer b.Unlock()\n	b.nodes = tmp\n")],
    tags=[""], race=True,
    demo=GROWRACE)

bug(id="refcou-stale", property="C14", needs="a finalizer on the same node, or on one read at the same time, between the test and the increment of a reference count",
    breaks="a decrement of the reference count by a finalizer is overwritten",
    edits=[("hkernel.go", "	x := n\n", "	x := n\n	refcou := b.nodes[n].refcou\n"),
           ("hkernel.go", "	if b.nodes[n].refcou < _MAXREFCOUNT {\n		b.nodes[n].refcou++", "	if refcou < _MAXREFCOUNT {\n		b.nodes[n].refcou = refcou + 1")],
    tags=[""], race=True, demo=race("rudd.Minfreenodes(0), rudd.Maxnodeincrease(1)"))

bug(id="finalizer-nodes", property="C14", needs="a finalizer that runs during a growth of the table, or on the last node of the table",
    breaks="the finalizer reads the table without the lock before decrementing",
    edits=[("hudd.go", "	impl.nodefinalizer = func(n *int) {\n		b.Lock()\n", "	impl.nodefinalizer = func(n *int) {\n		if *n >= len(impl.nodes) {\n			return\n		}\n		b.Lock()\n")],
    tags=[""], race=True, demo=GROWRACE)

bug(id="buddy-rehash-first", property="C02", needs="a growth of the table after which the first variable is built again",
    breaks="with tag buddy, node 2 is no longer in the unique table after a growth",
    edits=[("bkernel.go", "	for n := nodesize - 1; n > 1; n-- {\n		if b.nodes[n].low != -1 {", "	for n := nodesize - 1; n > 2; n-- {\n		if b.nodes[n].low != -1 {")],
    tags=["buddy"],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Nodesize(14))
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 500; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		if k%10 == 0 && !b.Equal(b.Makeset([]int{0}), b.Ithvar(0)) {
			t.Fatal("demo: two nodes for the first variable")
		}
	}
}
"""))

bug(id="resize-lastlost", property="C02", needs="a growth of the table when its last slot is used, after which the node of this slot is built again",
    breaks="the unique table is rebuilt without the last node of the old table",
    edits=[("hkernel.go", "	b.freenum += (nodesize - oldsize)\n", "	b.freenum += (nodesize - oldsize)\n	// we rebuild the unicity table with the right size\n	b.unique = make(map[[huddsize]byte]int, nodesize)\n	for n := 2; n < oldsize-1; n++ {\n		if b.nodes[n].low != -1 {\n			b.huddhash(b.nodes[n].level, b.nodes[n].low, b.nodes[n].high)\n			b.unique[b.hbuff] = n\n		}\n	}\n")],
    tags=[""], demo=loop("rudd.Nodesize(12), rudd.Maxnodeincrease(1)", "vaain"))

bug(id="replacer-id-undo", property="C15", needs="a failing call of NewReplacer while another one is created, and then a third one, on BDDs used from different goroutines",
    breaks="two replacers have the same identifier, and share their entries in the cache",
    edits=[("replace.go", "	varnum := b.Varnum()\n	support := make(", "	valid := false\n	defer func() {\n		if !valid {\n			atomic.AddInt32(&_REPLACEID, -1)\n		}\n	}()\n	varnum := b.Varnum()\n	support := make("),
           ("replace.go", "	return res, nil\n}", "	valid = true\n	return res, nil\n}")],
    demo=demo("""
func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	stop := make(chan bool)
	defer close(stop)
	for g := 0; g < 3; g++ {
		go func() {
			b, _ := rudd.New(4)
			for {
				select {
				case <-stop:
					return
				default:
					for k := 0; k < 50; k++ {
						b.NewReplacer([]int{0, 1, 7}, []int{2, 3, 1})
					}
				}
			}
		}()
	}
	b, _ := rudd.New(12, rudd.Nodesize(1000))
	n := b.And(b.Ithvar(0), b.Ithvar(1))
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); {
		rs, err := make([]rudd.Replacer, 10), error(nil)
		for k := range rs {
			if rs[k], err = b.NewReplacer([]int{0}, []int{2 + k}); err != nil {
				t.Fatal(err)
			}
		}
		for k := range rs {
			if !b.Equal(b.Replace(n, rs[k]), b.And(b.Ithvar(2+k), b.Ithvar(1))) {
				t.Fatal("demo: wrong replacement")
			}
		}
	}
}
""", "runtime", "time"))

bug(id="buddy-primelte", property="C19", needs="a size of the table that is not prime",
    breaks="with tag buddy, the table is smaller than asked",
    edits=[("buddy.go", "nodesize := primeGte(config.nodesize)", "nodesize := primeLte(config.nodesize + 1)")],
    tags=["buddy"],
    demo=demo("""
func TestDemo(t *testing.T) {
	for _, size := range []int{100, 116, 500, 1000} {
		b, err := rudd.New(3, rudd.Nodesize(size))
		if err != nil {
			t.Fatal(err)
		}
		n := 0
		for _, l := range strings.Split(b.Stats(), "\\n") {
			if strings.HasPrefix(l, "Allocated:") {
				fmt.Sscanf(l, "Allocated: %d", &n)
			}
		}
		if n < size {
			t.Fatalf("demo: table of size %d instead of %d", n, size)
		}
	}
}
""", "strings", "fmt"))

bug(id="finalizer-cap", property="C08", needs="a node with more than 255 references at the same time, all dropped afterwards",
    breaks="no finalizer is set for the references after the 255th one, so the node is never collected",
    edits=[("hkernel.go", "		b.nodes[n].refcou++\n		runtime.SetFinalizer(&x, b.nodefinalizer)", "		b.nodes[n].refcou++\n		if b.nodes[n].refcou < 256 {\n			runtime.SetFinalizer(&x, b.nodefinalizer)\n		}")],
    tags=[""],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, err := rudd.New(7, rudd.Nodesize(400), rudd.Maxnodesize(400))
	if err != nil {
		t.Fatal(err)
	}
	base := map[int]bool{}
	level0 := func() (n int) {
		b.Allnodes(func(id, level, _, _ int) error {
			if level == 0 && !base[id] {
				n++
			}
			return nil
		})
		return n
	}
	b.Allnodes(func(id, _, _, _ int) error {
		base[id] = true
		return nil
	})
	hold := []rudd.Node{}
	for i := 0; i < 300; i++ {
		for k := 1; k < 7; k++ {
			for _, op := range ops[:5] {
				hold = append(hold, b.Apply(b.Ithvar(0), b.Ithvar(k), op))
			}
		}
	}
	if level0() != 30 {
		t.Fatal("demo: not 30 nodes")
	}
	runtime.KeepAlive(hold)
	hold = nil
	o := newOracle(b, []int{1, 2, 3, 4, 5, 6}, 1)
	left := 0
	for k := 0; k < 3000; k++ {
		if k%50 == 0 {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		// a few may share a memory block with a reference still in use
		if left = level0(); left < 10 {
			return
		}
	}
	t.Fatalf("demo: %d nodes without reference are never collected", left)
}
""", "runtime", "time"))

bug(id="mincollect", property="C08", needs="dead nodes whose low branch is true and whose high branch is not a constant",
    breaks="dead nodes that are implications from a variable are never collected",
    edits=[("hkernel.go", "		if b.ismarked(n) && (b.nodes[n].low != -1) {\n			b.unmarknode(n)\n		} else {", "		if b.nodes[n].low != -1 && (b.ismarked(n) || (b.nodes[n].low == 1 && b.nodes[n].high > 1)) {\n			b.unmarknode(n)\n		} else {")],
    tags=[""],
    demo=demo("""
func TestDemo(t *testing.T) {
	const v = 50
	b, _ := rudd.New(v, rudd.Nodesize(1000), rudd.Maxnodesize(1000))
	for i := 0; i < v; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
		for k := i + 1; k < v; k++ {
			if b.Imp(b.Ithvar(i), b.Ithvar(k)) == nil {
				t.Fatalf("demo: no room for %d implies %d", i, k)
			}
		}
	}
}
""", "runtime", "time"))

bug(id="makecube-clears", property="C12", needs="an error followed by a call of Makecube",
    breaks="the error status is erased by Makecube",
    edits=[("operations.go", "	if len(varset) != len(polarity) {\n		return b.seterror(", "	if len(varset) == len(polarity) {\n		b.error = nil\n	}\n	if len(varset) != len(polarity) {\n		return b.seterror(")],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	b.Ithvar(9)
	b.Makecube([]int{0, 2}, []bool{true, false})
	if !b.Errored() {
		t.Fatal("demo: the error is lost")
	}
}
"""))

bug(id="grow-loop", property="C19", needs="a collection that leaves few free nodes with a small maximal increase",
    breaks="the table grows several times at once, by more than the maximal increase, until the threshold is reached",
    edits=[("hkernel.go", "		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {", "		for (b.freenum*100)/len(b.nodes) <= b.minfreenodes {"),
           ("hkernel.go", "				err = errResize\n			}", "				err = errResize\n			} else {\n				break\n			}")],
    tags=[""],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(10, rudd.Nodesize(100), rudd.Maxnodeincrease(7), rudd.Minfreenodes(30))
	size := func() (n int) {
		for _, l := range strings.Split(b.Stats(), "\\n") {
			if strings.HasPrefix(l, "Allocated:") {
				fmt.Sscanf(l, "Allocated: %d", &n)
			}
		}
		return n
	}
	hold := []rudd.Node{}
	s := size()
	for i := 0; i < 10; i++ {
		for k := i + 1; k < 10; k++ {
			// one new node for each call
			hold = append(hold, b.Makecube([]int{i, k}, []bool{true, true}))
			n := size()
			if n > s+7 {
				t.Fatalf("demo: from %d to %d nodes for a single one", s, n)
			}
			s = n
			hold = append(hold, b.Makecube([]int{i, k}, []bool{true, false}))
			s = size()
		}
	}
}
""", "strings", "fmt"))

bug(id="and-slice", property="C01", needs="a slice with at least three nodes passed to And and used again afterwards",
    breaks="And writes partial results in the slice of its operands",
    edits=[("bdd.go", "	return b.Apply(n[0], b.And(n[1:]...), OPand)", "	k := len(n) - 2\n	res := b.Apply(n[k], n[k+1], OPand)\n	if k == 0 {\n		return res\n	}\n	// we reuse the slice for the partial result\n	n[k] = res\n	return b.And(n[:k+1]...)")],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	s := []rudd.Node{b.Ithvar(0), b.Ithvar(1), b.Ithvar(2)}
	b.And(s...)
	if n := b.Or(s...); !b.Equal(n, b.Or(b.Ithvar(0), b.Ithvar(1), b.Ithvar(2))) {
		t.Fatal("demo: And changed its operands")
	}
}
"""))

bug(id="enum-lock", property="C17", needs="a function given to Allnodes, without other arguments, that creates a node",
    breaks="Allnodes keeps the lock during the calls of the function",
    edits=[("hudd.go", "		v := b.nodes[k]\n		b.RUnlock()\n		if v.low != -1 {\n			if err := f(k, int(v.level), v.low, v.high); err != nil {\n				return err\n			}\n		}\n", "		v := b.nodes[k]\n		if v.low != -1 {\n			if err := f(k, int(v.level), v.low, v.high); err != nil {\n				b.RUnlock()\n				return err\n			}\n		}\n		b.RUnlock()\n")],
    tags=[""],
    demo=demo("""
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		b, _ := rudd.New(4)
		b.Allnodes(func(id, level, low, high int) error {
			b.And(b.Ithvar(0), b.Ithvar(1))
			return nil
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("demo: Allnodes does not end")
	}
}
""", "time"))

bug(id="not-inverse", property="C07", needs="a negation that fails at the limit on the number of nodes",
    breaks="panic when a negation fails",
    edits=[("operations.go", "	return b.setnot(n, res)", "	// negation is an involution\n	b.setnot(res, n)\n	return b.setnot(n, res)")],
    demo=demo("""
func TestDemo(t *testing.T) {
	for size := 20; size < 60; size++ {
		b, err := rudd.New(8, rudd.Nodesize(size), rudd.Maxnodesize(size))
		if err != nil {
			continue
		}
		hold := []rudd.Node{}
		for i := 0; i < 8 && !b.Errored(); i++ {
			for k := i + 1; k < 8 && !b.Errored(); k++ {
				n := b.Apply(b.Ithvar(i), b.Ithvar(k), rudd.OPand)
				if n == nil {
					break
				}
				hold = append(hold, n)
				if n = b.Not(n); n != nil {
					hold = append(hold, n)
				}
			}
		}
	}
}
"""))

bug(id="scanset-buf", property="C13", needs="the result of Scanset used after another call of Scanset",
    breaks="the results of Scanset share their memory",
    edits=[("operations.go", "	res := []int{}\n	for i := *n; i > 1; i = b.high(i) {\n		res = append(res, int(b.level(i)))\n	}\n	return res\n}", "	res := scanbuf[:0]\n	for i := *n; i > 1; i = b.high(i) {\n		res = append(res, int(b.level(i)))\n	}\n	return res\n}\n\n// scanbuf is used in Scanset to avoid small allocations\nvar scanbuf [8]int")],
    demo=demo("""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	x := b.Scanset(b.Makeset([]int{0, 2}))
	b.Scanset(b.Makeset([]int{1, 3}))
	if len(x) != 2 || x[0] != 0 || x[1] != 2 {
		t.Fatalf("demo: the set is now %v", x)
	}
}
"""))

for c, p, kinds in [("apply", "C01", "vaan"), ("ite", "C01", "vaii"), ("quant", "C03", "vaei"), ("appex", "C03", "vaxi")]:
    bug(id="noresize-" + c, property=p, needs="fixed size caches, and an entry of this cache whose nodes are collected and reused before the table grows",
        breaks="this cache is not erased when the table grows after a collection",
        edits=[("cache.go", "	b.%scache.resize(nodesize)\n" % c, "	if b.%scache.ratio > 0 {\n		b.%scache.resize(nodesize)\n	}\n" % (c, c))],
        demo=loop("rudd.Nodesize(14), rudd.Maxnodeincrease(6), rudd.Minfreenodes(99)", kinds, sessions=200, steps=300, lev="seq(6)", v=6,
                  pre="if k%10 == 0 {\n\t\t\t\truntime.GC()\n\t\t\t}"))
bug(id="noresize-replace", property="C04", needs="fixed size caches, and an entry of this cache whose nodes are collected and reused before the table grows",
    breaks="the cache of Replace is not erased when the table grows after a collection",
    edits=[("cache.go", "	b.replacecache.resize(nodesize)\n", "	if b.replacecache.ratio > 0 {\n		b.replacecache.resize(nodesize)\n	}\n")],
    demo=demo("""
func TestDemo(t *testing.T) {
	for s := 0; s < 100; s++ {
		b, _ := rudd.New(10, rudd.Nodesize(24), rudd.Maxnodeincrease(6), rudd.Minfreenodes(99))
		r, err := b.NewReplacer([]int{0, 1, 2, 3, 4}, []int{5, 6, 7, 8, 9})
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, seq(5), int64(s))
		p := newOracle(b, []int{5, 6, 7, 8, 9}, int64(s))
		for k := 0; k < 400; k++ {
			if k%10 == 0 {
				runtime.GC()
			}
			if err := o.step("vaain"); err != nil {
				t.Fatal(err)
			}
			i := k % len(o.n)
			g, err := p.tt(b.Replace(o.n[i], r))
			if err != nil {
				t.Fatal(err)
			}
			if g != o.f[i] {
				t.Fatal("demo: wrong replacement")
			}
		}
	}
}
""", "runtime"))

LIMIT = """
const v = 64

// ends reports when f does not end.
func ends(t *testing.T, f func(b *rudd.BDD, parity rudd.Node) rudd.Node) {
	done := make(chan string)
	go func() {
		b, _ := rudd.New(v, rudd.Nodesize(20000), rudd.Cachesize(20000))
		p := b.False()
		for k := v - 3; k >= 0; k-- {
			p = b.Apply(b.Ithvar(k), p, rudd.OPxor)
		}
		f(b, p)
		done <- b.Error()
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Fatal("demo: " + s)
		}
	case <-time.After(30 * time.Second):
		t.Fatal("demo: a call does not end on a diagram with 122 nodes")
	}
}

func TestDemo(t *testing.T) {
	ends(t, func(b *rudd.BDD, parity rudd.Node) rudd.Node {
		%s
	})
}
"""
MEMO = [("satcount", "	satc[n] = res\n	return res", "	return res", "b.Satcount(parity)\n\t\treturn nil"),
        ("not", "	return b.setnot(n, res)", "	return res", "return b.Not(parity)"),
        ("ite", "	return b.setite(f, g, h, res)", "	return res", "return b.Ite(b.Xor(parity, b.Ithvar(v-1)), parity, b.Not(parity))"),
        ("quant", "	return b.setquant(n, varset, res)", "	return res", "return b.Exist(parity, b.Makeset([]int{v-3}))")]
for name, old, new, call in MEMO:
    bug(id="memo-" + name, property="C21", needs="a diagram with much sharing, such as a parity",
        breaks="the results of the recursive calls are not kept, and the time is exponential",
        edits=[("operations.go", old, new)], demo=demo(LIMIT % call.replace("b.Xor(parity, b.Ithvar(v-1))", "b.Apply(parity, b.Ithvar(v-1), rudd.OPxor)"), "time"))
