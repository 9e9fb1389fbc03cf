package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"

	"github.com/dalzilio/rudd"
)

var opnames = []string{"and", "xor", "or", "nand", "nor", "imp", "biimp", "diff", "less", "invimp"}

var opvals = map[string]rudd.Operator{"and": rudd.OPand, "xor": rudd.OPxor, "or": rudd.OPor, "nand": rudd.OPnand,
	"nor": rudd.OPnor, "imp": rudd.OPimp, "biimp": rudd.OPbiimp, "diff": rudd.OPdiff, "less": rudd.OPless,
	"invimp": rudd.OPinvimp}

var appexops = []string{"and", "xor", "or", "nand"}

func (w *World) pick() int { // a live slot, 0 if none
	k := w.rng.Intn(w.S)
	for i := 0; i < w.S; i++ {
		s := (k+i)%w.S + 1
		if w.live[s] {
			return s
		}
	}
	return 0
}

func (w *World) pickNonConst() int {
	for k := 0; k < 8; k++ {
		s := w.pick()
		if s == 0 || *w.slots[s] > 1 {
			return s
		}
	}
	return w.pick()
}

func (w *World) pickVset() int {
	k := w.rng.Intn(w.S)
	for i := 0; i < w.S; i++ {
		s := (k+i)%w.S + 1
		if w.live[s] && w.vset[s] {
			return s
		}
	}
	return 0
}

func (w *World) target() int { return w.rng.Intn(w.S) + 1 }

// lend returns a function that reports whether the slice s was modified, and
// overwrites it: the library must not use it after the call.
func lend[T comparable](ev Ev, s []T, v T) func() {
	c := slices.Clone(s)
	return func() {
		if !slices.Equal(s, c) {
			ev["mod"] = true
		}
		for i := range s {
			s[i] = v
		}
	}
}

// n is the node in a slot, that is emptied if this is its last use.
func (w *World) n(s int) rudd.Node {
	n := w.slots[s]
	if k := w.left[s]; k > 0 {
		w.left[s] = k - 1
		if k == 1 {
			w.slots[s] = nil
		}
	}
	return n
}

// The calls. Each one emits one event named after the call.

func (w *World) Const(r int, val bool, via string) {
	w.op(Ev{"e": "Const", "val": val, "via": via}, r, func() rudd.Node {
		switch via {
		case "From":
			return w.b.From(val)
		case "And":
			return w.b.And()
		case "Or":
			return w.b.Or()
		}
		if val {
			return w.b.True()
		}
		return w.b.False()
	})
	w.vset[r] = w.live[r] && val
}

func (w *World) Var(r, i int, pol bool) {
	w.op(Ev{"e": "Var", "i": i, "pol": pol}, r, func() rudd.Node {
		if pol {
			return w.b.Ithvar(w.cfg.basis[i])
		}
		return w.b.NIthvar(w.cfg.basis[i])
	})
	w.vset[r] = w.live[r] && pol
}

func (w *World) Copy(r, a int) {
	vs := w.vset[a]
	w.op(Ev{"e": "Copy", "a": a}, r, func() rudd.Node { return w.n(a) })
	w.vset[r] = w.live[r] && vs
}

func (w *World) Not(r, a int) {
	w.op(Ev{"e": "Not", "a": a}, r, func() rudd.Node { return w.b.Not(w.n(a)) })
}

func (w *World) Apply(r, a, b int, op string) {
	w.op(Ev{"e": "Apply", "a": a, "b": b, "op": op}, r, func() rudd.Node { return w.b.Apply(w.n(a), w.n(b), opvals[op]) })
}

func (w *World) Imp(r, a, b int) {
	w.op(Ev{"e": "Imp", "a": a, "b": b}, r, func() rudd.Node { return w.b.Imp(w.n(a), w.n(b)) })
}

func (w *World) Equiv(r, a, b int) {
	w.op(Ev{"e": "Equiv", "a": a, "b": b}, r, func() rudd.Node { return w.b.Equiv(w.n(a), w.n(b)) })
}

func (w *World) Nary(r int, e string, as []int) {
	ev := Ev{"e": e, "as": as}
	w.op(ev, r, func() rudd.Node {
		ns := []rudd.Node{}
		for _, a := range as {
			ns = append(ns, w.n(a))
		}
		if len(ev["eat"].([]int)) == 0 {
			defer lend(ev, ns, nil)()
		}
		if e == "And" {
			return w.b.And(ns...)
		}
		return w.b.Or(ns...)
	})
}

func (w *World) Ite(r, a, b, c int) {
	w.op(Ev{"e": "Ite", "a": a, "b": b, "c": c}, r, func() rudd.Node { return w.b.Ite(w.n(a), w.n(b), w.n(c)) })
}

func (w *World) Nested(r, a, b, c int) {
	w.op(Ev{"e": "Nested", "a": a, "b": b, "c": c}, r, func() rudd.Node {
		return w.b.Ite(w.b.And(w.n(a), w.n(b)), w.b.Or(w.b.Not(w.n(c)), w.n(a)), w.b.Equiv(w.n(b), w.n(c)))
	})
}

func (w *World) Exist(r, a, v int) {
	w.op(Ev{"e": "Exist", "a": a, "v": v}, r, func() rudd.Node { return w.b.Exist(w.n(a), w.n(v)) })
}

func (w *World) AppEx(r, a, b, v int, op string) {
	w.op(Ev{"e": "AppEx", "a": a, "b": b, "v": v, "op": op}, r, func() rudd.Node { return w.b.AppEx(w.n(a), w.n(b), opvals[op], w.n(v)) })
}

func (w *World) AndExist(r, a, b, v int) {
	w.op(Ev{"e": "AndExist", "a": a, "b": b, "v": v}, r, func() rudd.Node { return w.b.AndExist(w.n(a), w.n(b), w.n(v)) })
}

func (w *World) Replace(r, a, k int) {
	w.op(Ev{"e": "Replace", "a": a, "k": k}, r, func() rudd.Node { return w.b.Replace(w.n(a), w.reps[k]) })
}

func (w *World) levels(vs []int) []int {
	r := make([]int, len(vs))
	for i, v := range vs {
		r[i] = w.cfg.basis[v]
	}
	return r
}

func (w *World) Makeset(r int, vs []int) {
	ev := Ev{"e": "Makeset", "vs": vs}
	w.op(ev, r, func() rudd.Node {
		ls := w.levels(vs)
		defer lend(ev, ls, 0)()
		return w.b.Makeset(ls)
	})
	w.vset[r] = w.live[r]
}

func (w *World) Makecube(r int, vs []int, pol []bool) {
	full := len(vs) == w.cfg.V && w.rng.Intn(2) == 0
	ev := Ev{"e": "Makecube", "vs": vs, "pol": pol, "all": full}
	w.op(ev, r, func() rudd.Node {
		ls, ps := w.levels(vs), slices.Clone(pol)
		defer lend(ev, ls, 0)()
		defer lend(ev, ps, true)()
		if full {
			return w.b.Makecube(nil, ps)
		}
		return w.b.Makecube(ls, ps)
	})
}

func (w *World) Low(r, a int) {
	w.op(Ev{"e": "Low", "a": a}, r, func() rudd.Node { return w.b.Low(w.n(a)) })
}

func (w *World) High(r, a int) {
	w.op(Ev{"e": "High", "a": a}, r, func() rudd.Node { return w.b.High(w.n(a)) })
}

// Makenode calls the kernel function on nodes that are held, with or without
// other nodes on the reference stack.
func (w *World) Makenode(r, a, b int) {
	top := func(s int) int { // smallest model variable of the node
		if *w.slots[s] < 2 {
			return w.cfg.N
		}
		return w.idx[w.b.Label(w.slots[s])]
	}
	n := min(top(a), top(b))
	if n == 0 {
		return
	}
	i := w.rng.Intn(n)
	k := max(0, w.rng.Intn(4)-1)
	w.op(Ev{"e": "Makenode", "i": i, "a": a, "b": b}, r, func() rudd.Node {
		w.b.Initref()
		for j := 0; j < k; j++ {
			w.b.Pushref(*w.n(b))
		}
		n := w.b.Retnode(w.b.Makenode(int32(w.cfg.basis[i]), *w.n(a), *w.n(b)))
		w.b.Popref(k)
		return n
	})
}

// Build makes the function of a truth table by Shannon expansion with Ite.
func (w *World) Build(r int, f uint64) {
	f &= w.full()
	w.op(Ev{"e": "Build", "tt": bits(f)}, r, func() rudd.Node {
		var rec func(i, lo, n int) rudd.Node
		rec = func(i, base, step int) rudd.Node {
			// minterms base + k*step; variables i.. remain
			if i == w.cfg.N {
				return w.b.From(f>>base&1 == 1)
			}
			l := rec(i+1, base, step*2)
			h := rec(i+1, base+step, step*2)
			if l == nil || h == nil {
				return nil
			}
			return w.b.Ite(w.b.Ithvar(w.cfg.basis[i]), h, l)
		}
		return rec(0, 0, 1)
	})
}

func (w *World) NewRep(k int, old, new []int) {
	if w.dead {
		return
	}
	ev := Ev{"e": "NewRep", "k": k, "old": old, "new": new, "rid": -1, "mod": false}
	w.reps[k] = nil
	w.guard(ev, func() {
		o, n := w.levels(old), w.levels(new)
		defer lend(ev, o, 0)()
		defer lend(ev, n, 0)()
		r, err := w.b.NewReplacer(o, n)
		if err != nil || r == nil {
			ev["res"] = "err"
			return
		}
		ev["res"] = "ok"
		ev["rid"] = r.Id()
		w.reps[k] = r
	})
	ev["er"] = w.b.Errored()
	img := make([]int, w.cfg.N)
	for i := range img {
		img[i] = i
	}
	for i, o := range old {
		if o >= 0 && o < w.cfg.N {
			img[o] = new[i]
		}
	}
	w.rimg[k] = img
	w.tr.Emit(ev)
}

// info runs a call that does not return a node.
func (w *World) info(ev Ev, f func()) {
	if w.dead {
		return
	}
	ev["res"], ev["nest"], ev["mod"] = "ok", w.depth, false
	if !w.guard(ev, f) {
		w.dead = true
		ev["er"] = true
		w.tr.Emit(ev)
		return
	}
	ev["er"] = w.b.Errored()
	w.tally(ev)
	w.tr.Emit(ev)
}

func (w *World) Label(a int) {
	ev := Ev{"e": "Label", "a": a, "lab": -1}
	w.info(ev, func() { ev["lab"] = w.b.Label(w.n(a)) })
}

func (w *World) Satcount(a int) {
	ev := Ev{"e": "Satcount", "a": a, "q": -1, "rem": -1}
	w.info(ev, func() {
		c := w.b.Satcount(w.n(a))
		q := new(big.Int).Rsh(c, uint(w.cfg.V-w.cfg.N))
		rem := new(big.Int).Sub(c, new(big.Int).Lsh(q, uint(w.cfg.V-w.cfg.N)))
		if q.IsInt64() && q.Int64() < 1<<30 {
			ev["q"] = int(q.Int64())
		}
		ev["rem"] = rem.Sign()
		c.SetInt64(-7) // the number is ours
	})
}

func (w *World) Scanset(a int) {
	ev := Ev{"e": "Scanset", "a": a, "set": []int{}}
	w.info(ev, func() {
		set := []int{}
		n := w.n(a)
		ws := w.b.Scanset(n)
		vs := w.b.Scanset(n)
		for i := range ws {
			ws[i] = 1 << 20 // this one is ours
		}
		for i, l := range vs {
			set = append(set, w.model(l))
			vs[i] = 0 // the slice is ours
		}
		ev["set"] = set
	})
}

// model is the model variable of a level, or 1000 + level
func (w *World) model(l int) int {
	if i, ok := w.idx[l]; ok {
		return i
	}
	return 1000 + l
}

type stopErr struct{ k int }

func (e *stopErr) Error() string { return fmt.Sprint("stop ", e.k) }

// cube projects an assignment of Allsat on the model variables.
func (w *World) cube(prof []int) (c []int, frn bool) {
	frn = len(prof) != w.cfg.V
	c = make([]int, w.cfg.N)
	for i := range c {
		c[i] = 7
	}
	for l, v := range prof {
		if i, ok := w.idx[l]; ok {
			c[i] = v
		} else if v != -1 {
			frn = true
		}
	}
	return c, frn
}

// Allsat enumerates node a; the function fails at call number fail (0: never).
func (w *World) Allsat(a, fail int) {
	ev := Ev{"e": "Allsat", "a": a, "fail": fail, "ret": "nil", "frn": false}
	cubes := [][]int{}
	w.info(ev, func() {
		e := &stopErr{fail}
		err := w.b.Allsat(func(prof []int) error {
			c, frn := w.cube(prof)
			if frn {
				ev["frn"] = true
			}
			cubes = append(cubes, c)
			ev["cubes"] = cubes
			if len(cubes) == fail {
				return e
			}
			return nil
		}, w.n(a))
		ev["cubes"] = cubes
		ev["ret"] = retname(err, e)
	})
}

func retname(err error, e error) string {
	switch {
	case err == nil:
		return "nil"
	case err == e:
		return "same"
	}
	return "other"
}

// nav collects the diagram of a node with Label, Low and High.
func (w *World) nav(n rudd.Node) [][]int {
	seen := map[int]bool{}
	res := [][]int{}
	var rec func(n rudd.Node)
	rec = func(n rudd.Node) {
		if n == nil || *n < 2 || seen[*n] {
			return
		}
		seen[*n] = true
		l, h := w.b.Low(n), w.b.High(n)
		if l == nil || h == nil {
			res = append(res, []int{*n, w.b.Label(n), -9, -9})
			return
		}
		res = append(res, []int{*n, w.b.Label(n), *l, *h})
		rec(l)
		rec(h)
	}
	rec(n)
	return res
}

// Allnodes visits the nodes of some slots; the function fails at call number fail.
func (w *World) Allnodes(as []int, fail int) {
	ev := Ev{"e": "Allnodes", "as": as, "fail": fail, "ret": "nil", "nodes": [][]int{}, "ref": [][]int{}, "roots": []int{}}
	w.info(ev, func() {
		ref := [][]int{}
		have := map[int]bool{}
		ns := []rudd.Node{}
		roots := []int{}
		for _, a := range as {
			ns = append(ns, w.n(a))
			roots = append(roots, *w.n(a))
			for _, x := range w.nav(w.n(a)) {
				if !have[x[0]] {
					have[x[0]] = true
					ref = append(ref, x)
				}
			}
		}
		ev["ref"], ev["roots"] = ref, roots
		nodes := [][]int{}
		defer lend(ev, ns, nil)()
		e := &stopErr{fail}
		err := w.b.Allnodes(func(id, level, low, high int) error {
			nodes = append(nodes, []int{id, level, low, high})
			ev["nodes"] = nodes
			if len(nodes) == fail {
				return e
			}
			return nil
		}, ns...)
		ev["ret"] = retname(err, e)
	})
}

// Output parses what Print and Dot write.
func (w *World) Output(kind string, as []int) {
	if len(as) == 0 && w.last.used > maxDump {
		return
	}
	ev := Ev{"e": kind, "as": as, "ref": [][]int{}, "roots": []int{}, "nodes": [][]int{}, "edges": [][]int{}, "text": "", "ret": "nil"}
	w.info(ev, func() {
		ref := [][]int{}
		have := map[int]bool{}
		ns := []rudd.Node{}
		roots := []int{}
		for _, a := range as {
			ns = append(ns, w.n(a))
			roots = append(roots, *w.n(a))
			for _, x := range w.nav(w.n(a)) {
				if !have[x[0]] {
					have[x[0]] = true
					ref = append(ref, x)
				}
			}
		}
		if len(as) == 0 {
			w.b.Allnodes(func(id, level, low, high int) error {
				ref = append(ref, []int{id, level, low, high})
				return nil
			})
		}
		ev["ref"], ev["roots"] = ref, roots
		var sb strings.Builder
		defer lend(ev, ns, nil)()
		if kind == "Print" {
			w.b.Print(&sb, ns...)
			parsePrint(ev, sb.String())
			return
		}
		if err := w.b.Dot(&sb, ns...); err != nil {
			ev["ret"] = "err"
		}
		parseDot(ev, sb.String())
	})
}

func parsePrint(ev Ev, s string) {
	nodes := [][]int{}
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case t == "":
		case t == "True" || t == "False":
			ev["text"] = ev["text"].(string) + t
		default:
			var id, lvl, lo, hi int
			x := strings.NewReplacer("[", " ", "]", " ", "?", " ", ":", " ").Replace(t)
			if n, err := fmt.Sscan(x, &id, &lvl, &lo, &hi); n == 4 && err == nil {
				nodes = append(nodes, []int{id, lvl, lo, hi})
			} else {
				ev["text"] = ev["text"].(string) + "?" + t
			}
		}
	}
	ev["nodes"] = nodes
}

func parseDot(ev Ev, s string) {
	nodes := [][]int{}
	edges := [][]int{}
	text := ""
	for _, st := range dotStatements(s, &text) {
		var a, b int
		if i := strings.Index(st, "->"); i >= 0 {
			k := -1
			if strings.Contains(st, "dotted") {
				k = 0
			} else if strings.Contains(st, "filled") {
				k = 1
			}
			fmt.Sscan(st[:i], &a)
			fmt.Sscan(st[i+2:], &b)
			edges = append(edges, []int{a, k, b})
			continue
		}
		if n, _ := fmt.Sscan(st, &a); n == 1 {
			if strings.Contains(st, "shape=box") {
				nodes = append(nodes, []int{a, -1})
				continue
			}
			lvl := -1
			if m := reDotLevel.FindStringSubmatch(st); m != nil {
				fmt.Sscan(m[1], &lvl)
			}
			nodes = append(nodes, []int{a, lvl})
			continue
		}
		text += "?"
	}
	ev["nodes"], ev["edges"], ev["text"] = nodes, edges, text
}

// dotStatements splits a digraph in statements ended with a semicolon.
func dotStatements(s string, text *string) []string {
	i, j := strings.Index(s, "{"), strings.LastIndex(s, "}")
	if i < 0 || j < i || !strings.Contains(s[:i], "digraph") {
		*text += "nodigraph"
		return nil
	}
	res := []string{}
	for _, st := range strings.Split(s[i+1:j], ";") {
		if strings.TrimSpace(st) != "" {
			res = append(res, strings.TrimSpace(st))
		}
	}
	return res
}

func (w *World) Equal(a, b int) {
	ev := Ev{"e": "Equal", "a": a, "b": b, "val": false}
	w.info(ev, func() {
		ev["val"] = w.b.Equal(w.n(a), w.n(b))
	})
}

// subset of the model variables
func (w *World) subset() []int {
	r := []int{}
	for i := 0; i < w.cfg.N; i++ {
		if w.rng.Intn(2) == 0 {
			r = append(r, i)
		}
	}
	return r
}

func (w *World) shuffledSubset() []int {
	r := w.subset()
	w.rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	for len(r) > 0 && w.rng.Intn(5) == 0 {
		r = append(r, r[w.rng.Intn(len(r))])
	}
	return r
}

// randomRep chooses a valid renaming: an injection from some variables to
// others, none of them being renamed unless to itself.
func (w *World) randomRep(k int) {
	p := w.rng.Perm(w.cfg.N)
	m := w.rng.Intn(w.cfg.N/2 + 1)
	old, new := append([]int{}, p[:m]...), append([]int{}, p[m:2*m]...)
	if 2*m < w.cfg.N && w.rng.Intn(3) == 0 {
		old, new = append(old, p[2*m]), append(new, p[2*m])
	}
	w.NewRep(k, old, new)
}

// replaceable lists the slots where no target variable of replacer k occurs.
func (w *World) replaceable(k int) []int {
	res := []int{}
	for s := 1; s <= w.S; s++ {
		if !w.live[s] {
			continue
		}
		ok := true
		for o, v := range w.rimg[k] {
			if o != v && depends(w.fs[s], v) {
				ok = false
			}
		}
		if ok {
			res = append(res, s)
		}
	}
	return res
}

func depends(f uint64, i int) bool {
	v := varmask(i)
	return ((f & v) >> (1 << i)) != (f &^ v)
}

func sorted(x []int) []int {
	r := append([]int{}, x...)
	sort.Ints(r)
	return r
}
