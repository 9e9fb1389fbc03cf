package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"weak"

	"github.com/dalzilio/rudd"
)

// Cfg is the configuration of a session.
type Cfg struct {
	V, N                            int
	basis                           []int // level of each model variable
	nodesize, cachesize, cacheratio int   // -1: option not given
	minfree, maxinc, maxsize        int
	gcing                           bool // with frequent collections of the Go runtime
	maxdepth, maxparity             int  // of the diagrams, in deep sessions
}

func defaultCfg(n int) Cfg {
	c := Cfg{V: n, N: n, nodesize: -1, cachesize: -1, cacheratio: -1, minfree: -1, maxinc: -1, maxsize: -1}
	for i := 0; i < n; i++ {
		c.basis = append(c.basis, i)
	}
	return c
}

func list[T any](xs ...T) []T { return xs }

// newBDD calls New with the options of the configuration. The type of options
// is not exported so we build the list with a generic function.
func newBDD(c Cfg) (*rudd.BDD, error) {
	opts := list(rudd.Nodesize(0))
	if c.nodesize >= 0 {
		opts = append(opts, rudd.Nodesize(c.nodesize))
	}
	if c.cachesize >= 0 {
		opts = append(opts, rudd.Cachesize(c.cachesize))
	}
	if c.cacheratio >= 0 {
		opts = append(opts, rudd.Cacheratio(c.cacheratio))
	}
	if c.minfree >= 0 {
		opts = append(opts, rudd.Minfreenodes(c.minfree))
	}
	if c.maxinc >= 0 {
		opts = append(opts, rudd.Maxnodeincrease(c.maxinc))
	}
	if c.maxsize >= 0 {
		opts = append(opts, rudd.Maxnodesize(c.maxsize))
	}
	return rudd.New(c.V, opts...)
}

// World is a BDD with the slots of the program that uses it.
type World struct {
	b     *rudd.BDD
	cfg   Cfg
	tr    *Tracer
	rng   *rand.Rand
	w     *watch
	S, K  int
	slots []rudd.Node
	fs    []uint64 // observed function (model variables)
	live  []bool
	vset  []bool // slot built by Makeset, or True: usable as a varset
	reps  []rudd.Replacer
	rimg  [][]int
	last  Counters
	dead  bool // session over, after a panic for instance
	depth int  // nesting of enumerations
	step  int
	zom   []zombie // dropped references
	track bool     // keep track of dropped references
	plain bool     // no call that creates hidden references
	idx   map[int]int
	cmp   bool // the program must not depend on the size of the table
	eatp  int  // percentage of calls that are the last to use their operands
	left  map[int]int
	taken int // references taken by churn and hold since no dropped reference was alive
}

var eaters = map[string]bool{"Not": true, "Apply": true, "Imp": true, "Equiv": true, "Ite": true, "Exist": true, "AppEx": true, "AndExist": true,
	"Replace": true, "Low": true, "High": true}

// eat gives the nodes in some slots up to the call that uses them.
func (w *World) eat(ev Ev, slots []int) {
	uses := map[int]int{}
	for _, f := range []string{"a", "b", "c", "v"} {
		if s, ok := ev[f].(int); ok {
			uses[s]++
		}
	}
	eaten := []int{}
	for _, s := range sorted(slots) {
		if k := uses[s]; k > 0 && w.live[s] && w.left[s] == 0 {
			n := w.slots[s]
			w.drop(s)
			w.slots[s] = n
			w.left[s] = k
			eaten = append(eaten, s)
		}
	}
	ev["eat"] = eaten
}

// chooseEaten is eat with slots chosen at random.
func (w *World) chooseEaten(ev Ev) {
	if w.eatp == 0 || w.depth > 0 || !eaters[ev["e"].(string)] || w.rng.Intn(100) >= w.eatp {
		return
	}
	slots := []int{}
	for _, f := range []string{"a", "b", "c", "v"} {
		if s, ok := ev[f].(int); ok && s > 0 && w.rng.Intn(3) > 0 {
			slots = append(slots, s)
		}
	}
	w.eat(ev, slots)
}

type zombie struct {
	id int
	p  weak.Pointer[int]
}

func (w *World) full() uint64 {
	if w.cfg.N == 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (1 << w.cfg.N)) - 1
}

func bits(f uint64) []int {
	r := []int{}
	for m := 0; m < 64; m++ {
		if f>>m&1 == 1 {
			r = append(r, m)
		}
	}
	return r
}

// NewWorld creates a BDD and emits the New event.
func NewWorld(c Cfg, tr *Tracer, rng *rand.Rand, S, K int) *World {
	w := &World{cfg: c, tr: tr, rng: rng, S: S, K: K, w: newWatch(tr)}
	w.idx, w.left = map[int]int{}, map[int]int{}
	for i, v := range c.basis {
		w.idx[v] = i
	}
	ev := Ev{"e": "New", "varnum": c.V, "n": c.N, "basis": c.basis, "S": S, "K": K,
		"nodesize": c.nodesize, "cachesize": c.cachesize, "cacheratio": c.cacheratio,
		"minfree": c.minfree, "maxinc": c.maxinc, "maxsize": c.maxsize, "lim": c.maxsize > 0}
	w.w.begin()
	func() {
		defer func() {
			if x := recover(); x != nil {
				ev["res"], ev["pan"] = "panic", fmt.Sprint(x)
			}
		}()
		b, err := newBDD(c)
		if err != nil || b == nil {
			ev["res"] = "err"
			return
		}
		w.b = b
		ev["res"] = "ok"
	}()
	w.w.end()
	if w.b == nil {
		w.dead = true
		ev["er"] = true
		ev["al"], ev["pr"], ev["fr"], ev["us"], ev["gcs"], ev["roots"] = 0, 0, 0, 0, 0, []int{}
		tr.Emit(ev)
		return w
	}
	w.slots = make([]rudd.Node, S+1)
	w.fs = make([]uint64, S+1)
	w.live = make([]bool, S+1)
	w.vset = make([]bool, S+1)
	w.reps = make([]rudd.Replacer, K+1)
	w.rimg = make([][]int, K+1)
	w.last = counters(w.b)
	ev["er"] = w.b.Errored()
	ev["al"], ev["pr"], ev["fr"], ev["us"], ev["gcs"] = w.last.alloc, w.last.produced, w.last.free, w.last.used, w.last.gcs
	// nodes of the variables, that are never collected
	roots := []int{}
	if c.V <= 256 {
		for i := 0; i < c.V; i++ {
			for _, n := range []rudd.Node{w.b.Ithvar(i), w.b.NIthvar(i)} {
				if n != nil {
					roots = append(roots, *n)
				}
			}
		}
	}
	ev["roots"] = roots
	tr.Emit(ev)
	return w
}

func (w *World) Close() {
	w.w.release()
	w.slots, w.b, w.reps = nil, nil, nil
}

type gnode struct{ lvl, lo, hi int }

// graph returns the nodes reachable from n.
func (w *World) graph(n ...rudd.Node) (map[int]gnode, error) {
	g := map[int]gnode{}
	var dup bool
	err := w.b.Allnodes(func(id, level, low, high int) error {
		if _, ok := g[id]; ok {
			dup = true
		}
		g[id] = gnode{level, low, high}
		return nil
	}, n...)
	if err == nil && dup {
		err = fmt.Errorf("node visited twice")
	}
	return g, err
}

// denote computes the function of a node over the model variables; ok is false
// if the graph is broken or uses another variable.
func (w *World) denote(g map[int]gnode, root int) (f uint64, ok bool) {
	memo := map[int]uint64{0: 0, 1: w.full()}
	busy := map[int]bool{}
	ok = true
	var rec func(id int) uint64
	rec = func(id int) uint64 {
		if v, found := memo[id]; found {
			return v
		}
		x, found := g[id]
		i, isvar := w.idx[x.lvl]
		if !found || !isvar || busy[id] {
			ok = false
			return 0
		}
		busy[id] = true
		lo, hi := rec(x.lo), rec(x.hi)
		v := varmask(i)
		r := (lo &^ v) | (hi & v)
		r &= w.full()
		memo[id] = r
		return r
	}
	f = rec(root)
	return f, ok
}

// varmask is the set of minterms where variable i is true.
func varmask(i int) uint64 {
	var v uint64
	for m := 0; m < 64; m++ {
		if m>>i&1 == 1 {
			v |= 1 << m
		}
	}
	return v
}

// ghash is a digest of the graph with its ids; shape is the same up to a
// renaming of the ids.
func ghash(g map[int]gnode, root int) string {
	ids := []int{}
	for k := range g {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d:", root)
	for _, k := range ids {
		fmt.Fprintf(h, "%d,%d,%d,%d;", k, g[k].lvl, g[k].lo, g[k].hi)
	}
	return fmt.Sprintf("%x", h.Sum64())
}

func shape(g map[int]gnode, root int) string {
	num := map[int]int{0: 0, 1: 1}
	var sb strings.Builder
	var rec func(id, depth int) int
	rec = func(id, depth int) int {
		if k, ok := num[id]; ok {
			return k
		}
		x, ok := g[id]
		if !ok || depth > 5000 {
			return -1
		}
		num[id] = -2
		lo, hi := rec(x.lo, depth+1), rec(x.hi, depth+1)
		k := len(num)
		num[id] = k
		fmt.Fprintf(&sb, "%d,%d,%d,%d;", k, x.lvl, lo, hi)
		return k
	}
	r := rec(root, 0)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d:%s", r, sb.String())
	return fmt.Sprintf("%x", h.Sum64())
}

// observe adds to ev what can be seen of node n.
func (w *World) observe(ev Ev, n rudd.Node) (f uint64, ok bool) {
	g, err := w.graph(n)
	ev["id"] = *n
	if err != nil {
		ev["frn"], ev["fs"], ev["gh"], ev["sh"] = true, []int{}, "", ""
		return 0, false
	}
	f, ok = w.denote(g, *n)
	ev["gh"] = ghash(g, *n)
	ev["sh"] = shape(g, *n)
	ev["sz"] = len(g)
	ev["frn"] = !ok
	if !ok {
		ev["fs"] = []int{}
		return 0, false
	}
	ev["fs"] = bits(f)
	return f, true
}

// counters since the last event
func (w *World) tally(ev Ev) {
	c := counters(w.b)
	ev["gc"] = c.gcs - w.last.gcs
	ev["al"], ev["pr"], ev["us"], ev["fr"] = c.alloc, c.produced, c.used, c.free
	w.last = c
}

// guard runs f and reports a panic in ev.
func (w *World) guard(ev Ev, f func()) (ok bool) {
	w.w.begin()
	defer w.w.end()
	defer func() {
		if x := recover(); x != nil {
			ev["res"] = "panic"
			ev["pan"] = fmt.Sprint(x)
			ok = false
		}
	}()
	f()
	return true
}

func (w *World) drop(s int) {
	if w.live[s] && w.track && w.slots[s] != nil && *w.slots[s] > 1 {
		w.zom = append(w.zom, zombie{*w.slots[s], weak.Make((*int)(w.slots[s]))})
	}
	w.slots[s], w.live[s], w.vset[s], w.fs[s] = nil, false, false, 0
}

//go:noinline
func (w *World) invoke(ev Ev, f func() rudd.Node) (n rudd.Node) {
	w.guard(ev, func() { n = f() })
	return n
}

// op runs a call whose result goes in slot r.
//
//go:noinline
func (w *World) op(ev Ev, r int, f func() rudd.Node) {
	if w.dead {
		return
	}
	ev["r"] = r
	ev["id"], ev["fs"], ev["frn"], ev["gh"], ev["sh"], ev["sz"] = -1, []int{}, false, "", "", 0
	ev["nest"], ev["mod"] = w.depth, false
	ev["eq"] = []int{}
	if _, ok := ev["eat"]; !ok {
		ev["eat"] = []int{}
		w.chooseEaten(ev)
	}
	n := w.invoke(ev, f)
	if ev["res"] == "panic" {
		w.dead = true
		ev["er"], ev["gc"] = true, 0
		ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0
		w.tr.Emit(ev)
		return
	}
	w.tally(ev)
	w.drop(r)
	ev["er"] = w.b.Errored()
	if n == nil {
		ev["res"] = "nil"
		w.tr.Emit(ev)
		return
	}
	ev["res"] = "ok"
	ok := false
	if w.guard(ev, func() { w.fs[r], ok = w.observe(ev, n) }) {
		eq := []int{}
		for t := 1; t <= w.S; t++ {
			if t != r && w.live[t] && w.b.Equal(w.slots[t], n) {
				eq = append(eq, t)
			}
		}
		ev["eq"] = eq
	}
	if !ok {
		w.dead = true
	}
	w.slots[r], w.live[r] = n, true
	w.tr.Emit(ev)
}

// check observes again the node in slot s.
//
//go:noinline
func (w *World) check(s int) {
	if w.dead || !w.live[s] {
		return
	}
	ev := Ev{"e": "Check", "s": s, "res": "ok", "fs": []int{}, "frn": true, "gh": "", "sh": "", "id": -1, "nest": w.depth}
	ok := false
	w.guard(ev, func() { _, ok = w.observe(ev, w.slots[s]) })
	if !ok {
		w.dead = true
	}
	ev["er"] = w.b.Errored()
	w.tr.Emit(ev)
}

func (w *World) checkAll() {
	for s := 1; s <= w.S; s++ {
		w.check(s)
	}
}

func (w *World) emitDrop(s int) {
	if w.dead || !w.live[s] {
		return
	}
	w.drop(s)
	w.tr.Emit(Ev{"e": "Drop", "s": s})
}

// maxDump is the number of nodes above which the table is not recorded.
const maxDump = 2500

// table enumerates all the nodes.
func (w *World) table(kind string) {
	if w.dead || w.last.used > maxDump {
		return
	}
	nodes := [][]int{}
	ev := Ev{"e": kind, "res": "ok"}
	w.guard(ev, func() {
		err := w.b.Allnodes(func(id, level, low, high int) error {
			nodes = append(nodes, []int{id, level, low, high})
			return nil
		})
		if err != nil {
			ev["res"] = "err"
		}
	})
	ev["nodes"] = nodes
	w.tally(ev)
	w.tr.Emit(ev)
}

// settle runs the Go garbage collector and waits for finalizers.
//
//go:noinline
func settle() {
	for k := 0; k < 3; k++ {
		done := make(chan bool)
		sentinel(done)
		runtime.GC()
		<-done
	}
}

//go:noinline
func sentinel(done chan bool) {
	x := new([4]*int)
	runtime.SetFinalizer(x, func(*[4]*int) { close(done) })
}

// goGC settles and reports the references, dropped by the program, that the Go
// runtime has not collected.
func (w *World) goGC() {
	if w.dead {
		return
	}
	w.w.begin()
	settle()
	w.w.end()
	alive := w.zom[:0]
	ids := []int{}
	seen := map[*int]bool{} // a call may return the node it was given
	for s := 1; s <= w.S; s++ {
		if w.live[s] && w.slots[s] != nil {
			seen[(*int)(w.slots[s])] = true
		}
	}
	for _, z := range w.zom {
		if p := z.p.Value(); p != nil && !seen[p] {
			seen[p] = true
			alive = append(alive, z)
			ids = append(ids, z.id)
		}
	}
	w.zom = alive
	if len(alive) == 0 {
		w.taken = 0
	}
	w.tr.Emit(Ev{"e": "GoGC", "zom": ids})
}
