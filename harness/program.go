package main

import (
	"io"
	"math/rand"
	"regexp"
	"runtime"
	"sync"
	"time"

	"github.com/dalzilio/rudd"
)

var reDotLevel = regexp.MustCompile(`POINT-SIZE="20">\s*(\d+)`)

// Misuse

func ref(x int) rudd.Node { return &x }

// badNode returns a node that is not valid.
func (w *World) badNode(kind string) rudd.Node {
	size := w.last.alloc
	switch kind {
	case "neg":
		return ref(-1 - w.rng.Intn(3))
	case "big":
		return ref(size + []int{0, 1, 17, 1 << 40}[w.rng.Intn(4)])
	case "dead":
		active := map[int]bool{}
		w.b.Allnodes(func(id, level, low, high int) error {
			active[id] = true
			return nil
		})
		for k := size - 1; k > 1; k-- {
			if !active[k] {
				return ref(k)
			}
		}
		return ref(size)
	}
	return nil
}

var nodeCalls = []string{"Not", "Apply1", "Apply2", "And1", "And2", "And", "Or1", "Or2", "Or", "Imp1", "Imp2", "Equiv1", "Equiv2",
	"Ite1", "Ite2", "Ite3", "Exist1", "Exist2", "AppEx1", "AppEx2", "AppEx3", "AndExist1", "AndExist2", "AndExist3",
	"Replace", "Satcount", "Allsat", "Allnodes", "Allnodes2", "Label", "Low", "High", "Scanset", "Print", "Dot"}

var otherCalls = []string{"ApplyOp", "AppExOp", "Ithvar", "NIthvar", "Makeset", "Makecube", "MakecubeLen", "MakecubeAll", "MakecubeNone", "LabelConst"}

// misuseSweep makes every invalid call as the first error of a BDD.
func misuseSweep(tr *Tracer, rng *rand.Rand) {
	p := profiles["mixed"]
	p.init()
	one := func(call, kind string) {
		c := config(rng, "tiny", 0)
		w := NewWorld(c, tr, rng, 6, 2)
		defer w.Close()
		for i := 0; i < 3+rng.Intn(8) && !w.dead; i++ {
			w.randomOp(p)
		}
		if w.dead {
			return
		}
		w.Build(1, rng.Uint64()&w.full())
		w.Var(2, rng.Intn(c.N), true)
		if rng.Intn(3) == 0 {
			w.Const(3, rng.Intn(2) == 0, "From")
		} else {
			w.Apply(3, 1, 2, opnames[rng.Intn(10)])
		}
		w.Makeset(4, w.subset())
		if w.dead {
			return
		}
		a, b, v := 1, 2, 4
		if rng.Intn(3) == 0 {
			a, b = 3, 1
		} else if rng.Intn(2) == 0 {
			a, b = 1, 3
		}
		if rng.Intn(4) == 0 {
			v = 0
		}
		w.misuseCall(call, kind, a, b, v)
		w.checkAll()
		w.Apply(5, 1, 2, opnames[rng.Intn(10)])
		w.Not(6, 3)
		w.Satcount(1)
		w.table("Table")
	}
	for _, call := range nodeCalls {
		for _, kind := range []string{"nil", "neg", "big", "dead"} {
			one(call, kind)
		}
	}
	for _, call := range otherCalls {
		for k := 0; k < 8; k++ {
			one(call, "arg")
		}
	}
}

func nodeval(n rudd.Node) string {
	switch {
	case n == nil:
		return "nil"
	case *n == 0:
		return "False"
	}
	return "node"
}

// misuse makes one invalid call.
func (w *World) misuse() {
	a, b := w.pick(), w.pickNonConst()
	v := w.pickVset()
	if w.dead || a == 0 || b == 0 {
		return
	}
	call := nodeCalls[w.rng.Intn(len(nodeCalls))]
	kind := []string{"nil", "neg", "big", "dead"}[w.rng.Intn(4)]
	if w.cmp {
		kind = []string{"nil", "neg"}[w.rng.Intn(2)]
	}
	if w.rng.Intn(3) == 0 {
		call, kind = otherCalls[w.rng.Intn(len(otherCalls))], "arg"
	}
	w.misuseCall(call, kind, a, b, v)
}

func (w *World) misuseCall(call, kind string, a, b, v int) {
	var bad rudd.Node
	if kind != "arg" {
		bad = w.badNode(kind)
	}
	ev := Ev{"e": "Misuse", "call": call, "arg": kind, "val": "none"}
	A, B := w.n(a), w.n(b)
	if w.rng.Intn(8) == 0 {
		A = w.b.From(w.rng.Intn(2) == 0)
	}
	V := w.b.True()
	if v != 0 {
		V = w.n(v)
	}
	op := opvals[opnames[w.rng.Intn(10)]]
	aop := opvals[appexops[w.rng.Intn(4)]]
	badvar := []int{-1, w.cfg.V, w.cfg.V + 1, 1 << 31, 1 << 32, 1<<32 + w.rng.Intn(w.cfg.V), -1 << 32, -1 << 63, 1<<63 - 1}[w.rng.Intn(9)]
	set := func(n rudd.Node) { ev["val"] = nodeval(n) }
	errv := func(err error) {
		if err != nil {
			ev["val"] = "err"
		} else {
			ev["val"] = "noerr"
		}
	}
	w.info(ev, func() {
		switch call {
		case "Not":
			set(w.b.Not(bad))
		case "Apply1":
			set(w.b.Apply(bad, B, op))
		case "Apply2":
			set(w.b.Apply(A, bad, op))
		case "And1":
			set(w.b.And(bad, B))
		case "And2":
			set(w.b.And(A, bad))
		case "And":
			set(w.b.And(bad))
		case "Or1":
			set(w.b.Or(bad, B))
		case "Or2":
			set(w.b.Or(A, bad))
		case "Or":
			set(w.b.Or(bad))
		case "Imp1":
			set(w.b.Imp(bad, B))
		case "Imp2":
			set(w.b.Imp(A, bad))
		case "Equiv1":
			set(w.b.Equiv(bad, B))
		case "Equiv2":
			set(w.b.Equiv(A, bad))
		case "Ite1":
			set(w.b.Ite(bad, A, B))
		case "Ite2":
			set(w.b.Ite(A, bad, B))
		case "Ite3":
			set(w.b.Ite(A, B, bad))
		case "Exist1":
			set(w.b.Exist(bad, V))
		case "Exist2":
			set(w.b.Exist(A, bad))
		case "AppEx1":
			set(w.b.AppEx(bad, B, aop, V))
		case "AppEx2":
			set(w.b.AppEx(A, bad, aop, V))
		case "AppEx3":
			set(w.b.AppEx(A, B, aop, bad))
		case "AndExist1":
			set(w.b.AndExist(bad, B, V))
		case "AndExist2":
			set(w.b.AndExist(A, bad, V))
		case "AndExist3":
			set(w.b.AndExist(A, B, bad))
		case "Replace":
			r, err := w.b.NewReplacer([]int{0}, []int{w.cfg.V - 1})
			if err == nil {
				set(w.b.Replace(bad, r))
			}
		case "Satcount":
			c := w.b.Satcount(bad)
			if c == nil {
				ev["val"] = "nil"
			} else if c.Sign() == 0 {
				ev["val"] = "0"
			}
		case "Allsat":
			errv(w.b.Allsat(func([]int) error { return nil }, bad))
		case "Allnodes":
			errv(w.b.Allnodes(func(_, _, _, _ int) error { return nil }, bad))
		case "Allnodes2":
			errv(w.b.Allnodes(func(_, _, _, _ int) error { return nil }, A, bad))
		case "Label":
			if w.b.Label(bad) == -1 {
				ev["val"] = "-1"
			}
		case "LabelConst":
			if w.b.Label(w.b.From(w.rng.Intn(2) == 0)) == -1 {
				ev["val"] = "-1"
			}
		case "Low":
			set(w.b.Low(bad))
		case "High":
			set(w.b.High(bad))
		case "Scanset":
			if w.b.Scanset(bad) == nil {
				ev["val"] = "nil"
			}
		case "Print":
			w.b.Print(io.Discard, bad)
		case "Dot":
			w.b.Dot(io.Discard, bad)
		case "ApplyOp":
			set(w.b.Apply(A, B, rudd.Operator([]int{10, 11, 12, 50, -1}[w.rng.Intn(5)])))
		case "AppExOp":
			set(w.b.AppEx(A, B, rudd.Operator([]int{4, 5, 6, 7, 8, 9, 10, 11, 50, -1}[w.rng.Intn(10)]), V))
		case "Ithvar":
			set(w.b.Ithvar(badvar))
		case "NIthvar":
			set(w.b.NIthvar(badvar))
		case "Makeset":
			vs := append(w.levels(w.subset()), badvar)
			w.rng.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
			set(w.b.Makeset(vs))
		case "Makecube":
			vs := sorted(append(w.levels(w.subset()), badvar))
			set(w.b.Makecube(vs, make([]bool, len(vs))))
		case "MakecubeLen":
			vs := append(w.levels(w.subset()), w.cfg.V-1)
			set(w.b.Makecube(vs, make([]bool, len(vs)+1-2*w.rng.Intn(2))))
		case "MakecubeAll":
			set(w.b.Makecube(nil, make([]bool, w.cfg.V+1-2*w.rng.Intn(2))))
		case "MakecubeNone":
			vs, pol := []int(nil), []bool(nil)
			if w.rng.Intn(2) == 0 {
				vs = []int{}
			}
			if w.rng.Intn(2) == 0 {
				pol = []bool{}
			}
			set(w.b.Makecube(vs, pol))
		}
	})
	runtime.KeepAlive(A)
	runtime.KeepAlive(B)
	runtime.KeepAlive(V)
}

// Enumerations whose function uses the BDD

func (w *World) enumerate(kind string, p *Profile) {
	a := w.pickNonConst()
	if a == 0 || w.dead {
		return
	}
	w.check(a)
	if w.dead || kind == "all" && w.last.used > 300 {
		return
	}
	hold := w.rng.Intn(2) == 0 || kind == "all"
	g, _ := w.graph(w.slots[a])
	nodes := [][]int{}
	for id, x := range g {
		nodes = append(nodes, []int{id, x.lvl, x.lo, x.hi})
	}
	ev := Ev{"e": "EnumBegin", "k": kind, "a": a, "drop": !hold, "g": nodes}
	w.tr.Emit(ev)
	w.depth++
	budget, every, stop := 12, 1, 0
	if w.rng.Intn(4) == 0 { // the function fails at this call
		stop = 1 + w.rng.Intn(10)
	}
	if kind == "all" {
		every = 1 + w.last.used/8
	}
	end := Ev{"e": "EnumEnd", "k": kind, "res": "ok", "ret": "nil"}
	body := func() bool {
		stop--
		if w.rng.Intn(every) != 0 {
			return stop == 0
		}
		for k := w.rng.Intn(4); k > 0 && budget > 0 && !w.dead; k-- {
			budget--
			w.randomOp(p)
		}
		if !w.dead && w.rng.Intn(6) == 0 {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		return stop == 0
	}
	w.enumRun(kind, a, hold, body, end)
	w.depth--
	end["er"] = w.b.Errored()
	if end["res"] == "panic" {
		w.dead = true
	} else {
		w.tally(end)
	}
	w.tr.Emit(end)
}

//go:noinline
func (w *World) enumRun(kind string, a int, hold bool, body func() bool, end Ev) {
	n := w.slots[a]
	if !hold { // nothing else refers to the node during the enumeration
		w.drop(a)
	}
	defer func() {
		if x := recover(); x != nil {
			end["res"] = "panic"
		}
	}()
	var err error
	e := &stopErr{1}
	// call returns the error of the function: it is the last call if there is one
	call := func(ev Ev) error {
		w.tr.Emit(ev)
		if !body() {
			return nil
		}
		w.tr.Emit(Ev{"e": "EnumStop"})
		return e
	}
	switch kind {
	case "sat":
		err = w.b.Allsat(func(prof []int) error {
			c, frn := w.cube(prof)
			return call(Ev{"e": "EnumCb", "cube": c, "frn": frn, "node": []int{}})
		}, n)
	case "nodes":
		err = w.b.Allnodes(func(id, level, low, high int) error {
			return call(Ev{"e": "EnumCb", "cube": []int{}, "frn": false, "node": []int{id, level, low, high}})
		}, n)
	case "all":
		err = w.b.Allnodes(func(id, level, low, high int) error {
			return call(Ev{"e": "EnumCb", "cube": []int{}, "frn": false, "node": []int{id, level, low, high}})
		})
		runtime.KeepAlive(n)
	}
	end["ret"] = retname(err, e)
}

// hasTop tells if a slot depends on the first model variable.
func (w *World) hasTop(s int) bool {
	v := varmask(0)
	f := w.fs[s]
	return f&^v != (f&v)>>1
}

// custom computes an operation with the kernel functions only.
func (w *World) custom(r, a, b int, op string) {
	w.op(Ev{"e": "Custom", "a": a, "b": b, "op": op}, r, func() rudd.Node {
		na, nb := w.n(a), w.n(b)
		g, err := w.graph(na, nb)
		if err != nil {
			return nil
		}
		memo := map[[2]int]int{}
		lvl := func(n int) int {
			if n < 2 {
				return w.cfg.V
			}
			return g[n].lvl
		}
		val := func(x, y int) int { // truth table
			k := 0
			if x == 1 {
				k = 2
			}
			if y == 1 {
				k++
			}
			return truth[op][k]
		}
		usememo, push := w.rng.Intn(2) == 0, w.rng.Intn(2) == 0
		pushed := 0
		var rec func(x, y int) int
		rec = func(x, y int) int {
			if x < 2 && y < 2 {
				return val(x, y)
			}
			if z, ok := memo[[2]int{x, y}]; ok {
				return z
			}
			l := min(lvl(x), lvl(y))
			x0, x1, y0, y1 := x, x, y, y
			if lvl(x) == l {
				x0, x1 = g[x].lo, g[x].hi
			}
			if lvl(y) == l {
				y0, y1 = g[y].lo, g[y].hi
			}
			lo := w.b.Pushref(rec(x0, y0))
			hi := w.b.Pushref(rec(x1, y1))
			z := -1
			if lo >= 0 && hi >= 0 {
				z = w.b.Makenode(int32(l), lo, hi)
			}
			if usememo && z >= 0 {
				// results in the memo are protected until the end
				memo[[2]int{x, y}] = z
				w.b.Pushref(z)
				pushed++
				return z
			}
			w.b.Popref(2)
			return z
		}
		w.b.Initref()
		// the operands are held by the slots anyway
		if push {
			w.b.Pushref(*na)
			w.b.Pushref(*nb)
		}
		res := rec(*na, *nb)
		if res < 0 {
			w.b.Initref()
			return nil
		}
		n := w.b.Retnode(res)
		if usememo {
			w.b.Initref()
		} else if push {
			w.b.Popref(2)
		}
		return n
	})
}

var truth = map[string][4]int{"and": {0, 0, 0, 1}, "xor": {0, 1, 1, 0}, "or": {0, 1, 1, 1}, "nand": {1, 1, 1, 0},
	"nor": {1, 0, 0, 0}, "imp": {1, 1, 0, 1}, "biimp": {1, 0, 0, 1}, "diff": {0, 0, 1, 0}, "less": {0, 1, 0, 0},
	"invimp": {1, 0, 1, 1}}

// Profile describes random programs.
type Profile struct {
	Weights map[string]int
	total   int
	names   []string
	Steps   int
	NoGC    bool
	Goal    string
}

func (p *Profile) init() {
	p.total, p.names = 0, nil
	for _, k := range []string{"Const", "Var", "Copy", "Not", "Apply", "Imp", "Equiv", "And", "Or", "Ite", "Nested", "Exist", "AppEx",
		"AndExist", "Replace", "Makeset", "Makecube", "Low", "High", "Build", "Custom", "Makenode", "NewRep",
		"Label", "Satcount", "Scanset", "Allsat", "Allnodes", "Print", "Dot", "Equal",
		"Check", "Drop", "GoGC", "RunGC", "Misuse", "Table", "EnumSat", "EnumNodes", "EnumAll",
		"SweepSets", "SweepOps", "SweepIte", "SweepRep"} {
		if p.Weights[k] > 0 {
			p.names = append(p.names, k)
			p.total += p.Weights[k]
		}
	}
}

func (w *World) randomOp(p *Profile) {
	if w.dead {
		return
	}
	x := w.rng.Intn(p.total)
	for _, k := range p.names {
		if x -= p.Weights[k]; x < 0 {
			w.doOp(k, p)
			return
		}
	}
}

func (w *World) some(n int) []int {
	r := []int{}
	for i := 0; i < n; i++ {
		if s := w.pick(); s != 0 {
			r = append(r, s)
		}
	}
	return r
}

func (w *World) doOp(k string, p *Profile) {
	a, b, c, r := w.pick(), w.pick(), w.pick(), w.target()
	if w.depth > 0 && w.rng.Intn(3) > 0 {
		r = w.S // keep the other slots for a while
	}
	if w.plain && (k == "Nested" || k == "Build" || k == "Misuse" || k == "Allnodes" || k == "Print" || k == "Dot") {
		k = "Apply"
	}
	if a == 0 && k != "Const" && k != "Var" && k != "Build" {
		k = "Var"
	}
	switch k {
	case "Const":
		val := w.rng.Intn(2) == 0
		via := []string{"True", "From"}[w.rng.Intn(2)]
		if w.rng.Intn(4) == 0 {
			via = map[bool]string{true: "And", false: "Or"}[val]
		}
		w.Const(r, val, via)
	case "Var":
		w.Var(r, w.rng.Intn(w.cfg.N), w.rng.Intn(3) > 0)
	case "Copy":
		w.Copy(r, a)
	case "Not":
		w.Not(r, a)
	case "Apply":
		w.Apply(r, a, b, opnames[w.rng.Intn(10)])
	case "Custom":
		w.custom(r, a, b, opnames[w.rng.Intn(10)])
	case "Makenode":
		// nodes with room above them
		for k := 0; k < 6 && a != 0 && b != 0 && (a == b || w.hasTop(a) || w.hasTop(b)); k++ {
			a, b = w.pick(), w.pick()
		}
		if a != 0 && b != 0 {
			w.Makenode(r, a, b)
		}
	case "Imp":
		w.Imp(r, a, b)
	case "Equiv":
		w.Equiv(r, a, b)
	case "And", "Or":
		n := w.rng.Intn(5)
		if w.plain {
			n = 2
		}
		w.Nary(r, k, w.some(n))
	case "Ite":
		w.Ite(r, a, b, c)
	case "Nested":
		w.Nested(r, a, b, c)
	case "Build":
		w.Build(r, w.rng.Uint64())
	case "Exist":
		if v := w.pickVset(); v != 0 {
			w.Exist(r, a, v)
		} else {
			w.Makeset(r, w.subset())
		}
	case "AppEx", "AndExist":
		if v := w.pickVset(); v != 0 {
			if k == "AppEx" {
				w.AppEx(r, a, b, v, appexops[w.rng.Intn(4)])
			} else {
				w.AndExist(r, a, b, v)
			}
		} else {
			w.Makeset(r, w.subset())
		}
	case "NewRep":
		w.randomRep(1 + w.rng.Intn(w.K))
	case "Replace":
		k := 1 + w.rng.Intn(w.K)
		if w.reps[k] == nil {
			w.randomRep(k)
		}
		if w.reps[k] == nil || w.dead {
			return
		}
		if ok := w.replaceable(k); len(ok) > 0 && w.rng.Intn(8) > 0 {
			a = ok[w.rng.Intn(len(ok))]
		}
		w.Replace(r, a, k)
	case "Makeset":
		w.Makeset(r, w.shuffledSubset())
	case "Makecube":
		vs := w.subset()
		if w.rng.Intn(6) == 0 {
			vs = []int{}
			for i := 0; i < w.cfg.N; i++ {
				vs = append(vs, i)
			}
		}
		if len(vs) == 0 {
			vs = []int{w.rng.Intn(w.cfg.N)}
		}
		pol := make([]bool, len(vs))
		for i := range pol {
			pol[i] = w.rng.Intn(2) == 0
		}
		w.Makecube(r, vs, pol)
	case "Low":
		w.Low(r, a)
	case "High":
		w.High(r, a)
	case "Label":
		if a = w.pickNonConst(); *w.slots[a] > 1 {
			w.Label(a)
		}
	case "Satcount":
		w.Satcount(a)
	case "Scanset":
		if v := w.pickVset(); v != 0 {
			w.Scanset(v)
		}
	case "Allsat":
		fail := 0
		if w.rng.Intn(3) == 0 {
			fail = 1 + w.rng.Intn(6)
		}
		w.Allsat(a, fail)
	case "Allnodes":
		fail := 0
		if w.rng.Intn(3) == 0 {
			fail = 1 + w.rng.Intn(8)
		}
		w.Allnodes(w.some(1+w.rng.Intn(3)), fail)
	case "Print", "Dot":
		w.Output(k, w.some(w.rng.Intn(4)))
	case "Equal":
		w.Equal(a, b)
	case "Check":
		w.check(a)
	case "Drop":
		w.emitDrop(a)
	case "GoGC":
		w.goGC()
	case "RunGC":
		runtime.GC()
	case "Misuse":
		w.misuse()
	case "SweepSets", "SweepOps", "SweepIte", "SweepRep":
		w.sweep(k, a, b)
	case "Table":
		w.table("Table")
	case "EnumSat", "EnumNodes", "EnumAll":
		if w.depth < 2 {
			w.enumerate(map[string]string{"EnumSat": "sat", "EnumNodes": "nodes", "EnumAll": "all"}[k], p)
		}
	}
}

// sweep makes a burst of calls that differ by one argument, for results that
// are remembered under a wrong name.
func (w *World) sweep(k string, a, b int) {
	free := func(not ...int) int {
		for {
			r := w.target()
			ok := true
			for _, x := range not {
				ok = ok && r != x
			}
			if ok {
				return r
			}
		}
	}
	n := 4 + w.rng.Intn(20)
	op, aop := opnames[w.rng.Intn(10)], appexops[w.rng.Intn(4)]
	for i := 0; i < n && !w.dead && w.live[a] && w.live[b]; i++ {
		switch k {
		case "SweepSets":
			v := free(a, b)
			if w.rng.Intn(3) > 0 || !w.live[v] || !w.vset[v] {
				w.Makeset(v, w.subset())
			}
			if w.dead || !w.live[v] {
				return
			}
			if w.rng.Intn(2) == 0 {
				aop = appexops[w.rng.Intn(4)]
			}
			if n%2 == 0 {
				w.Exist(free(a, b, v), a, v)
			} else {
				w.AppEx(free(a, b, v), a, b, v, aop)
			}
			if w.cfg.gcing && w.live[v] && w.rng.Intn(2) == 0 {
				// the id of the set may be used by another one
				w.emitDrop(v)
				runtime.GC()
				time.Sleep(50 * time.Microsecond)
			}
		case "SweepOps":
			r := free(a, b)
			switch w.rng.Intn(8) {
			case 0:
				w.Not(r, a)
			case 1:
				if c := w.pick(); c != 0 {
					w.Ite(r, a, b, c)
				}
			case 2:
				if v := w.pickVset(); v != 0 {
					w.AppEx(r, a, b, v, appexops[w.rng.Intn(4)])
				}
			default:
				w.Apply(r, a, b, opnames[w.rng.Intn(10)])
			}
		case "SweepIte":
			c := w.pick()
			if c == 0 {
				return
			}
			x := [][3]int{{a, b, c}, {c, a, b}, {a, c, b}}[w.rng.Intn(3)]
			w.Ite(free(a, b), x[0], x[1], x[2])
			if w.rng.Intn(3) == 0 {
				w.Apply(free(a, b), a, w.pick(), op)
			}
		case "SweepRep":
			q := 1 + w.rng.Intn(w.K)
			if w.reps[q] == nil || w.rng.Intn(6) == 0 {
				w.randomRep(q)
			}
			if w.reps[q] == nil || w.dead {
				return
			}
			w.Replace(free(a), a, q)
		}
	}
}

// run executes a random program in a new BDD.
func runSession(c Cfg, tr *Tracer, rng *rand.Rand, p *Profile, S, K int, track bool) {
	w := NewWorld(c, tr, rng, S, K)
	w.track = track
	w.eatp = pickOf(rng, 0, 10, 50)
	defer w.Close()
	if w.dead {
		return
	}
	for k := 0; k < p.Steps && !w.dead; k++ {
		if c.gcing && rng.Intn(15) == 0 {
			runtime.GC()
			time.Sleep(50 * time.Microsecond)
		}
		w.randomOp(p)
	}
	if !w.dead {
		w.checkAll()
		w.table("Table")
	}
}

// hammer runs the Go garbage collector all the time.
func hammer(stop chan bool, wg *sync.WaitGroup, pause time.Duration) {
	defer wg.Done()
	for {
		select {
		case <-stop:
			return
		default:
			runtime.GC()
			time.Sleep(pause)
		}
	}
}
