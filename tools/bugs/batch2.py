HEAD = '''package rudd_test

import (
	"testing"
%s
	"github.com/dalzilio/rudd"
)
'''
def demo(body, *imports):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body

def loop(opts, kinds, sessions=30, steps=400, lev="seq(5)", v=5, pre=""):
    return demo('''
func TestDemo(t *testing.T) {
	for s := 0; s < %d; s++ {
		b, err := rudd.New(%d, %s)
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, %s, int64(s))
		for k := 0; k < %d; k++ {
			%s
			if err := o.step("%s"); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''' % (sessions, v, opts, lev, steps, pre, kinds), *(["runtime"] if "runtime." in pre else []))

BUGS = []
def bug(**k): BUGS.append(k)


GCL = ("rudd.Minfreenodes(0), rudd.Maxnodeincrease(1)", "if k%10 == 0 {\n\t\t\t\truntime.GC()\n\t\t\t}")

bug(id="limit-plus-one", property="C07", needs="a growth that would end exactly one node over the limit",
    breaks="the table exceeds Maxnodesize by one node",
    edits=[("hkernel.go", "	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {", "	if (nodesize-1 > b.maxnodesize) && (b.maxnodesize > 0) {"),
           ("bkernel.go", "	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {", "	if (nodesize-1 > b.maxnodesize) && (b.maxnodesize > 0) {")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	for inc := 1; inc < 8; inc++ {
		for max := 15; max < 40; max++ {
			b, err := rudd.New(6, rudd.Maxnodesize(max), rudd.Maxnodeincrease(inc))
			if err != nil {
				t.Fatal(err)
			}
			o := newOracle(b, seq(6), int64(max))
			for k := 0; k < 50 && !b.Errored(); k++ {
				n := b.Apply(o.n[k%8], o.n[(k*3+1)%8], ops[k%10])
				if n != nil {
					o.n[k%8] = n
				}
				var size int
				s := b.Stats()
				fmt.Sscanf(s[strings.Index(s, "Allocated:")+10:], "%d", &size)
				if size > max {
					t.Fatalf("demo: %d nodes, the limit is %d", size, max)
				}
			}
		}
	}
}
""", "fmt", "strings"))

bug(id="finalizer-once", property="C08", needs="two references to one node at the same time, both released",
    breaks="only the first reference to a node has a finalizer, so the node is kept for ever when there were others",
    edits=[(f, "		b.nodes[n].refcou++\n		runtime.SetFinalizer(&x, b.nodefinalizer)\n", "		b.nodes[n].refcou++\n		if b.nodes[n].refcou <= 2 {\n			runtime.SetFinalizer(&x, b.nodefinalizer)\n		}\n") for f in ("hkernel.go", "bkernel.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, err := rudd.New(7, rudd.Nodesize(400), rudd.Maxnodesize(400))
	if err != nil {
		t.Fatal(err)
	}
	base := map[int]bool{}
	level0 := func() (n int) {
		b.Allnodes(func(id, level, _, _ int) error {
			if level == 0 && !base[id] {
				n++
			}
			return nil
		})
		return n
	}
	b.Allnodes(func(id, _, _, _ int) error {
		base[id] = true
		return nil
	})
	hold := []rudd.Node{}
	for i := 0; i < 5; i++ {
		for k := 1; k < 7; k++ {
			for _, op := range ops[:5] {
				hold = append(hold, b.Apply(b.Ithvar(0), b.Ithvar(k), op))
			}
		}
	}
	if level0() != 30 {
		t.Fatal("demo: not 30 nodes")
	}
	runtime.KeepAlive(hold)
	hold = nil
	o := newOracle(b, []int{1, 2, 3, 4, 5, 6}, 1)
	left := 0
	for k := 0; k < 3000; k++ {
		if k%50 == 0 {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
		// a few may share a memory block with a reference still in use
		if left = level0(); left < 10 {
			return
		}
	}
	t.Fatalf("demo: %d nodes without reference are never collected", left)
}
""", "runtime", "time"))

bug(id="print-first-const", property="C11", needs="Print with several nodes, the first of them a constant",
    breaks="only the constant is printed",
    edits=[("stdio.go", "	if len(n) == 1 && n[0] != nil {", "	if len(n) >= 1 && n[0] != nil {")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	n := b.And(b.Ithvar(0), b.Ithvar(2))
	var x, y bytes.Buffer
	b.Print(&x, n)
	b.Print(&y, b.True(), n)
	if x.String() != y.String() {
		t.Fatalf("demo: printed %q", y.String())
	}
}
""", "bytes"))

bug(id="scanset-int16", property="C13", needs="variables above 32767",
    breaks="Scanset returns wrong variables when there are many of them",
    edits=[("operations.go", "		res = append(res, int(b.level(i)))", "		res = append(res, int(int16(b.level(i))))")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(40000)
	for _, v := range []int{5, 32767, 32768, 39999} {
		if s := b.Scanset(b.Makeset([]int{v})); len(s) != 1 || s[0] != v {
			t.Fatalf("demo: set %v is not %d", s, v)
		}
	}
}
"""))

bug(id="finalizer-rlock", property="C14", needs="a finalizer that runs while a collection marks the same node",
    breaks="finalizers and marking update the same field at the same time",
    edits=[("hudd.go", "		b.Lock()\n		defer b.Unlock()\n		if _DEBUG {\n			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)", "		b.RLock()\n		defer b.RUnlock()\n		if _DEBUG {\n			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)")],
    tags=[""], race=True,
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				close(done)
				return
			default:
				runtime.GC()
			}
		}
	}()
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 20000; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	<-done
}
""", "runtime"))

bug(id="shared-quantset", property="C15", needs="two BDDs with the same number of variables, with quantifications in turn",
    breaks="the set of quantified variables is shared by the BDDs with the same number of variables",
    edits=[("cache.go", "	b.quantset = make([]int32, b.varnum)\n	b.quantsetID = 0\n", "	b.quantset = quantstore(b.varnum)\n	b.quantsetID = 0\n"),
           ("cache.go", "func (b *BDD) cachereset() {", """var (
	quantmutex sync.Mutex
	quantsets  = map[int32][]int32{}
)

// quantstore returns a slice of the given size.
func quantstore(n int32) []int32 {
	quantmutex.Lock()
	defer quantmutex.Unlock()
	if quantsets[n] == nil {
		quantsets[n] = make([]int32, n)
	}
	return quantsets[n]
}

func (b *BDD) cachereset() {"""),
           ("cache.go", '	"math"\n', '	"math"\n	"sync"\n')],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	os := []*oracle{}
	for k := 0; k < 3; k++ {
		b, err := rudd.New(6)
		if err != nil {
			t.Fatal(err)
		}
		os = append(os, newOracle(b, seq(6), int64(k)))
	}
	for k := 0; k < 3000; k++ {
		if err := os[k*7/2%3].step("vaeaix"); err != nil {
			t.Fatal(err)
		}
	}
}
"""))

bug(id="reset-empty-stack", property="C18", needs="a collection in the first Makenode of a sequence, when the reference stack is empty (as in Makeset), then a cached operation",
    breaks="the caches are kept by a collection that happens with an empty reference stack",
    edits=[("bdd.go", "		// during the GC, but that correspond to other values now.\n		b.cachereset()\n", "		// during the GC, but that correspond to other values now.\n		if len(b.refstack) > 0 {\n			b.cachereset()\n		}\n")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	for s := 0; s < 40; s++ {
		b, err := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(5))
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, seq(6), int64(s))
		for k := 0; k < 400; k++ {
			if k%10 == 0 {
				runtime.GC()
			}
			if err := o.step("vaeini"); err != nil {
				t.Fatal(err)
			}
			// a node with the kernel functions, whose children are held by o
			x, y := o.n[k%8], o.n[(k+3)%8]
			if *x < 2 || *y < 2 || *x == *y || b.Label(x) < 1 || b.Label(y) < 1 {
				continue
			}
			b.Initref()
			n := b.Retnode(b.Makenode(0, *x, *y))
			v := vmask(0)
			if f, err := o.tt(n); err != nil || f != (o.f[k%8]&^v|o.f[(k+3)%8]&v) {
				t.Fatalf("demo: Makenode: %v", err)
			}
		}
	}
}
""", "runtime"))

bug(id="minfree-strict", property="C19", needs="a free share exactly equal to Minfreenodes (such as 0) after a collection",
    breaks="the table is not grown in that case, and the operation fails although nothing limits the table",
    edits=[(f, "		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {", "		if (b.freenum*100)/len(b.nodes) < b.minfreenodes {") for f in ("hkernel.go", "bkernel.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Minfreenodes(0))
	o := newOracle(b, seq(6), 1)
	for k := 0; k < 300; k++ {
		if err := o.step("vaain"); err != nil {
			t.Fatal(err)
		}
	}
}
"""))

bug(id="replacer-overlap-first", property="C20", needs="old and new variables that overlap only by the first of the new ones",
    breaks="such a replacer is accepted",
    edits=[("replace.go", "	for _, v := range newvars {\n		if int(res.image[v]) != v {", "	for k, v := range newvars {\n		if k > 0 && int(res.image[v]) != v {")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(5)
	if _, err := b.NewReplacer([]int{1, 0}, []int{0, 3}); err == nil {
		t.Fatal("demo: accepted")
	}
}
"""))

bug(id="quantset-memo", property="C03", needs="a variable set whose node is collected, and its id used by another variable set, between two quantifications",
    breaks="the set of variables is not computed again when the node of the set has the same id as the last one",
    edits=[("cache.go", "	b.quantsetID++\n	if b.quantsetID == math.MaxInt32 {", "	if b.quantsetID > 0 && n == b.quantroot {\n		return nil // same set as in the last call\n	}\n	b.quantroot = n\n	b.quantsetID++\n	if b.quantsetID == math.MaxInt32 {"),
           ("cache.go", "	quantlast   int32   // Current last variable to be quant.\n", "	quantlast   int32   // Current last variable to be quant.\n	quantroot   int     // Node of the current variable set\n")],
    demo=loop("rudd.Minfreenodes(0), rudd.Maxnodeincrease(5)", "vaeaexx", pre=GCL[1], sessions=200, steps=400, lev="seq(6)", v=6))

bug(id="replacer-id-wrap", property="C04", needs="Replace of the same node with two replacers made 64 creations apart, and no collection",
    breaks="the identifiers of replacers come back after 64 of them",
    edits=[("replace.go", "	res.id = (int(id) << 2) | cacheidREPLACE", "	res.id = (int(id&0x3F) << 2) | cacheidREPLACE")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(6, rudd.Nodesize(1000))
	n := b.And(b.Ithvar(0), b.Ithvar(1))
	for k := 0; k < 200; k++ {
		r, err := b.NewReplacer([]int{0}, []int{2 + k%3})
		if err != nil {
			t.Fatal(err)
		}
		if k%64 != 0 {
			continue
		}
		if got := b.Replace(n, r); !b.Equal(got, b.And(b.Ithvar(2+k%3), b.Ithvar(1))) {
			t.Fatalf("demo: wrong replacement after %d replacers", k)
		}
	}
}
"""))

bug(id="mark-depth-limit", property="C05", needs="a diagram with a path of more than 3000 nodes, and a collection",
    breaks="the marking of nodes stops at some depth, so the deepest nodes of the diagram are collected",
    edits=[(f, """func (b *tables) markrec(n int) {
	if n < 2 || b.ismarked(n) || (b.nodes[n].low == -1) {
		return
	}
	b.marknode(n)
	b.markrec(b.nodes[n].low)
	b.markrec(b.nodes[n].high)
}""", """func (b *tables) markrec(n int) {
	b.markdepth(n, 3000)
}

func (b *tables) markdepth(n, depth int) {
	if n < 2 || depth == 0 || b.ismarked(n) || (b.nodes[n].low == -1) {
		return
	}
	b.marknode(n)
	b.markdepth(b.nodes[n].low, depth-1)
	b.markdepth(b.nodes[n].high, depth-1)
}""") for f in ("hkernel.go", "bkernel.go")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	const v = 5000
	b, _ := rudd.New(v, rudd.Minfreenodes(0))
	pol := make([]bool, v)
	for k := range pol {
		pol[k] = k%3 > 0
	}
	n := b.Makecube(nil, pol)
	for k := 0; k < 20; k++ {
		pol[v-1-k] = !pol[v-1-k]
		b.Makecube(nil, pol)
		runtime.GC()
		k0 := 0
		b.Allsat(func(s []int) error {
			for i, x := range s {
				if (x == 1) != (i%3 > 0) || x < 0 {
					t.Fatalf("demo: variable %d is %d", i, x)
				}
			}
			k0++
			return nil
		}, n)
		if k0 != 1 {
			t.Fatal("demo: no longer one assignment")
		}
	}
}
""", "runtime"))

bug(id="allsat-wrap-err", property="C10", needs="a function that returns an error deep in the enumeration, on a path through a high branch",
    breaks="the enumeration goes on after the function returns an error below the high branch of the last variable",
    edits=[("operations.go", "		if err := b.allsat(high, prof, f); err != nil {\n			return err\n		}\n	}\n	return nil\n}", "		if err := b.allsat(high, prof, f); err != nil && (b.low(n) == 0 || high > 1) {\n			return err\n		}\n	}\n	return nil\n}")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	b, _ := rudd.New(4)
	n := b.Or(b.Ithvar(0), b.And(b.Ithvar(1), b.Ithvar(2)), b.Ithvar(3))
	stop := errors.New("stop")
	for lim := 1; lim < 4; lim++ {
		k := 0
		err := b.Allsat(func([]int) error {
			if k++; k == lim {
				return stop
			}
			return nil
		}, n)
		if err != stop || k != lim {
			t.Fatalf("demo: %d calls, error %v", k, err)
		}
	}
}
""", "errors"))

bug(id="correctify-low-unprotected", property="C04", needs="a collection while Replace moves a variable below the low branch",
    breaks="the first intermediate result is not protected while the second one is computed",
    edits=[("operations.go", "		left := b.Pushref(b.correctify(level, b.low(low), high))\n", "		left := b.correctify(level, b.low(low), high)\n"),
           ("operations.go", "		right := b.Pushref(b.correctify(level, b.high(low), high))\n", "		right := b.Pushref(b.correctify(level, b.high(low), high))\n		b.Pushref(left)\n")],
    demo=demo(r"""
func TestDemo(t *testing.T) {
	for s := 0; s < 200; s++ {
		b, err := rudd.New(6, rudd.Minfreenodes(0), rudd.Maxnodeincrease(1))
		if err != nil {
			t.Fatal(err)
		}
		o := newOracle(b, seq(6), int64(s))
		r, err := b.NewReplacer([]int{0, 1, 2}, []int{5, 4, 3})
		if err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 300; k++ {
			if k%10 == 0 {
				runtime.GC()
			}
			if err := o.step("vaaine"); err != nil {
				t.Fatal(err)
			}
			for i := range o.n {
				f := o.exist(o.f[i], []int{3, 4, 5})
				n := b.Exist(o.n[i], b.Makeset([]int{3, 4, 5}))
				var want uint64
				for m := 0; m < 64; m++ {
					if f>>(m>>5&1|m>>3&2|m>>1&4)&1 == 1 {
						want |= 1 << m
					}
				}
				got, err := o.tt(b.Replace(n, r))
				if err != nil || got != want {
					t.Fatalf("demo: Replace of %x is %x, expected %x (%v)", f, got, want, err)
				}
			}
		}
	}
}
""", "runtime"))
