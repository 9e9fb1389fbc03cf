package main

import (
	"math/rand"
	"weak"

	"github.com/dalzilio/rudd"
)

// collect forces a collection of the node table: it fills the free nodes with
// nodes that nothing protects, then creates one more, from protected ones.
func (w *World) collect() {
	if w.dead {
		return
	}
	ev := Ev{"e": "Collect", "res": "ok", "new": -1, "nodes": [][]int{}, "forced": false}
	nodes := [][]int{}
	w.guard(ev, func() {
		newid := w.forceGC()
		ev["new"] = newid
		ev["forced"] = newid >= 0
		w.b.Allnodes(func(id, level, low, high int) error {
			nodes = append(nodes, []int{id, level, low, high})
			return nil
		})
	})
	ev["nodes"] = nodes
	if ev["res"] == "panic" {
		w.dead = true
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
	} else {
		w.tally(ev)
	}
	ev["er"] = w.b.Errored()
	w.tr.Emit(ev)
}

type triple struct{ lv, lo, hi int }

func (w *World) forceGC() int {
	have := map[triple]bool{}
	lvl := map[int]int{0: w.cfg.V, 1: w.cfg.V}
	ids := []int{0, 1}
	w.b.Allnodes(func(id, level, low, high int) error {
		if id > 1 {
			have[triple{level, low, high}] = true
			lvl[id] = level
			ids = append(ids, id)
		}
		return nil
	})
	w.b.Initref()
	free := counters(w.b).free
	for tries := 0; free > 0 && tries < 400000; tries++ {
		a, b := ids[w.rng.Intn(len(ids))], ids[w.rng.Intn(len(ids))]
		m := min(lvl[a], lvl[b])
		if a == b || m == 0 {
			continue
		}
		t := triple{w.rng.Intn(m), a, b}
		if have[t] {
			continue
		}
		id := w.b.Makenode(int32(t.lv), a, b)
		if id < 0 {
			return -1
		}
		have[t] = true
		lvl[id] = t.lv
		ids = append(ids, id)
		free--
	}
	if counters(w.b).free > 0 {
		return -1
	}
	// children are variables and constants
	prot, plvl := w.literals()
	for tries := 0; tries < 10000; tries++ {
		i, j := w.rng.Intn(len(prot)), w.rng.Intn(len(prot))
		m := min(plvl[i], plvl[j])
		if i == j || m == 0 {
			continue
		}
		t := triple{w.rng.Intn(m), prot[i], prot[j]}
		if !have[t] {
			return w.b.Makenode(int32(t.lv), prot[i], prot[j])
		}
	}
	return -1
}

// literals lists the constants and the literals, with their levels.
func (w *World) literals() (prot, plvl []int) {
	prot = []int{0, 1}
	plvl = []int{w.cfg.V, w.cfg.V}
	for i := 0; i < w.cfg.V && i < 60; i++ {
		for _, n := range []rudd.Node{w.b.Ithvar(i), w.b.NIthvar(i)} {
			prot, plvl = append(prot, *n), append(plvl, i)
		}
	}
	return prot, plvl
}

// hold takes k more references to the node in slot s.
func (w *World) hold(s, k int) (refs []rudd.Node) {
	w.taken += k
	ev := Ev{"e": "Hold", "s": s, "k": k, "sum": w.taken, "ids": []int{}, "res": "ok"}
	if !w.guard(ev, func() {
		ids := map[int]bool{}
		for i := 0; i < k; i++ {
			n := w.b.Apply(w.slots[s], w.slots[s], rudd.OPand)
			if n == nil {
				ids[-1] = true
				break
			}
			ids[*n] = true
			refs = append(refs, n)
		}
		l := []int{}
		for i := range ids {
			l = append(l, i)
		}
		ev["ids"] = l
	}) {
		w.dead = true
	}
	w.tr.Emit(ev)
	return refs
}

// release drops the references from lo to hi.
//
//go:noinline
func (w *World) release(refs []rudd.Node, lo, hi int, all bool) {
	if w.dead {
		return
	}
	id := 0
	for i := lo; i < hi; i++ {
		id = *refs[i]
		if w.track {
			w.zom = append(w.zom, zombie{*refs[i], weak.Make((*int)(refs[i]))})
		}
		refs[i] = nil
	}
	w.tr.Emit(Ev{"e": "Release", "id": id, "all": all})
}

// gcSession: programs where dropped references are followed, with forced
// collections.
func gcSession(c Cfg, tr *Tracer, rng *rand.Rand, p *Profile, S, rounds int, sat bool) {
	w := NewWorld(c, tr, rng, S, 3)
	w.track, w.plain, w.eatp = true, true, 15
	defer w.Close()
	for r := 0; r < rounds && !w.dead; r++ {
		for k := 0; k < p.Steps && !w.dead; k++ {
			w.randomOp(p)
		}
		if w.dead {
			return
		}
		// drop some slots, sometimes all of them
		keep := rng.Intn(3) // 0: nothing
		for s := 1; s <= w.S; s++ {
			if keep == 0 || rng.Intn(3) == 0 {
				w.emitDrop(s)
			}
		}
		if sat && rng.Intn(2) == 0 {
			w.saturate()
		}
		w.goGC()
		w.collect()
		w.checkAll()
	}
}

// saturate takes many references to a node, and drops them in two steps.
func (w *World) saturate() {
	s := w.pickNonConst()
	if s == 0 || w.dead {
		w.Var(2, w.rng.Intn(w.cfg.N), true)
		w.Var(3, w.rng.Intn(w.cfg.N), true)
		w.Apply(1, 2, 3, "xor")
		s = 1
	}
	if w.dead || *w.slots[s] < 2 {
		return
	}
	k := pickOf(w.rng, 2, 50, 255, 256, 300, 500, 513, 700, 899, 900, 1022, 1023, 1024, 1025, 1100, 2046, 2500, 5000)
	refs := w.hold(s, k)
	if w.dead || len(refs) < k {
		return
	}
	if w.rng.Intn(2) == 0 {
		w.emitDrop(s)
	}
	cut := k - 1 - w.rng.Intn(min(k-1, 5)+1)
	if w.rng.Intn(2) == 0 {
		cut = w.rng.Intn(k)
	}
	if cut > 0 {
		w.release(refs, 0, cut, false)
		w.goGC()
		w.collect()
	}
	w.observeRef(refs[cut:])
	w.release(refs, cut, k, true)
	w.goGC()
	w.collect()
	w.checkAll()
}

// observeRef observes a node through one of the references.
//
//go:noinline
func (w *World) observeRef(refs []rudd.Node) {
	if w.dead || len(refs) == 0 {
		return
	}
	ev := Ev{"e": "Peek", "res": "ok", "fs": []int{}, "frn": true, "gh": "", "sh": "", "id": -1, "nest": 0}
	ok := false
	w.guard(ev, func() { _, ok = w.observe(ev, refs[w.rng.Intn(len(refs))]) })
	if !ok {
		w.dead = true
	}
	ev["er"] = w.b.Errored()
	w.tr.Emit(ev)
}

// churn creates and drops references to a few nodes as fast as possible.
func (w *World) churn(n int) {
	if w.dead {
		return
	}
	live := []int{}
	for s := 1; s <= w.S; s++ {
		if w.live[s] && *w.slots[s] > 1 {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return
	}
	if len(live) > 3 {
		live = live[:1+w.rng.Intn(3)]
	}
	tracked := w.track && w.rng.Intn(2) == 0
	collect := w.rng.Intn(2) == 0 // also make the table full, often
	prot, plvl := w.literals()
	w.taken += n
	ev := Ev{"e": "Churn", "n": n, "sum": w.taken, "collect": collect, "slots": live, "bad": 0, "res": "ok", "tracked": tracked}
	bad := 0
	if !w.guard(ev, func() {
		for i := 0; i < n; i++ {
			s := w.slots[live[i%len(live)]]
			x := w.b.Apply(s, s, rudd.OPor)
			if x == nil || *x != *s {
				bad++
			}
			if tracked && x != nil && *x > 1 {
				w.zom = append(w.zom, zombie{*x, weak.Make((*int)(x))})
			}
			if collect {
				a, b := w.rng.Intn(len(prot)), w.rng.Intn(len(prot))
				if m := min(plvl[a], plvl[b]); a != b && m > 0 {
					w.b.Initref()
					w.b.Makenode(int32(w.rng.Intn(m)), prot[a], prot[b])
				}
			}
			if i%4096 == 4095 {
				w.w.begin()
			}
		}
	}) {
		w.dead = true
	}
	ev["bad"] = bad
	ev["er"] = w.b.Errored()
	if !w.dead {
		w.tally(ev)
	} else {
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
	}
	w.tr.Emit(ev)
}

// stressSession: finalizers run at any time, next to operations.
func stressSession(c Cfg, tr *Tracer, rng *rand.Rand, p *Profile, S, rounds, n int) {
	w := NewWorld(c, tr, rng, S, 3)
	w.track, w.plain, w.eatp = true, true, 15
	defer w.Close()
	for r := 0; r < rounds && !w.dead; r++ {
		for k := 0; k < p.Steps && !w.dead; k++ {
			w.randomOp(p)
			if k%8 == 7 {
				w.churn(pickOf(rng, 50, 200, n/10))
			}
		}
		w.churn(n)
		if rng.Intn(3) == 0 {
			w.saturate()
		}
		w.checkAll()
		w.goGC()
		w.collect()
		w.checkAll()
		for s := 1; s <= w.S; s++ {
			if r%2 == 1 || rng.Intn(2) == 0 {
				w.emitDrop(s)
			}
		}
		w.goGC()
		w.collect()
		w.checkAll()
	}
}

// recoverSession: at the memory limit, then with room again.
func recoverSession(c Cfg, tr *Tracer, rng *rand.Rand, p *Profile, S, rounds int) {
	w := NewWorld(c, tr, rng, S, 3)
	w.track, w.plain, w.eatp = true, true, 15
	defer w.Close()
	for r := 0; r < rounds && !w.dead; r++ {
		for k := 0; k < p.Steps && !w.dead; k++ {
			w.randomOp(p)
		}
		w.checkAll()
		keep := 1 + rng.Intn(w.S)
		for s := 1; s <= w.S; s++ {
			if s != keep || rng.Intn(3) == 0 {
				w.emitDrop(s)
			}
		}
		// the operands of the next operation: literals are always there
		w.Var(1, rng.Intn(c.N), true)
		w.Var(2, rng.Intn(c.N), rng.Intn(2) == 0)
		if keep > 2 && w.live[keep] {
			w.Copy(3, keep)
		}
		w.goGC()
		if w.dead {
			return
		}
		a, b, d := w.pick(), w.pick(), w.pick()
		switch rng.Intn(4) {
		case 0:
			w.Not(4, a)
		case 1:
			w.Ite(4, a, b, d)
		default:
			w.Apply(4, a, b, opnames[rng.Intn(10)])
		}
	}
}

// loopSession works for a long time with few live nodes.
func loopSession(c Cfg, tr *Tracer, rng *rand.Rand, rounds, batch int) {
	const S = 3
	w := NewWorld(c, tr, rng, S, 1)
	w.track, w.plain, w.eatp = true, true, 15
	defer w.Close()
	for r := 0; r < rounds && !w.dead; r++ {
		ev := Ev{"e": "Batch", "n": batch, "res": "ok"}
		if !w.guard(ev, func() { w.batch(batch) }) {
			w.dead = true
			ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"], ev["er"] = 0, 0, 0, 0, 0, true
			tr.Emit(ev)
			return
		}
		settle()
		ev["er"] = w.b.Errored()
		w.tally(ev)
		tr.Emit(ev)
	}
}

//go:noinline
func (w *World) batch(n int) {
	f := w.b.From(w.rng.Intn(2) == 0)
	for i := 0; i < n; i++ {
		v := w.b.Ithvar(w.cfg.basis[w.rng.Intn(w.cfg.N)])
		x := w.b.Ithvar(w.cfg.basis[w.rng.Intn(w.cfg.N)])
		switch w.rng.Intn(4) {
		case 0:
			f = w.b.Apply(f, v, opvals[opnames[w.rng.Intn(10)]])
		case 1:
			f = w.b.Ite(v, f, x)
		case 2:
			f = w.b.Not(w.b.Exist(f, v))
		default:
			f = w.b.Equiv(w.b.Apply(v, x, rudd.OPxor), f)
		}
		if f == nil {
			f = w.b.True()
		}
	}
}

// leakSweep makes many calls of the same kind, the results of which are
// dropped, and waits for the Go runtime to collect them.
func leakSweep(c Cfg, tr *Tracer, rng *rand.Rand, n int) {
	w := NewWorld(c, tr, rng, 8, 3)
	w.track, w.plain, w.eatp = true, true, 15
	defer w.Close()
	for _, kind := range []string{"Not", "Apply", "Imp", "Ite", "Makeset", "Makecube", "Exist", "AppEx", "AndExist", "Replace", "Low", "High",
		"Custom", "Makenode", "Copy", "Satcount", "Allsat", "Scanset", "Check", "Equal", "Drop"} {
		if w.dead {
			return
		}
		p := &Profile{Weights: map[string]int{kind: 12, "Var": 1, "Apply": 1, "Makeset": 1}}
		p.init()
		for i := 0; i < n && !w.dead; i++ {
			w.randomOp(p)
		}
		for s := 1; s <= w.S; s++ {
			if rng.Intn(3) > 0 {
				w.emitDrop(s)
			}
		}
		w.goGC()
		if rng.Intn(3) == 0 {
			w.collect()
			w.checkAll()
		}
	}
}

// repeat makes the same trivial call n times.
func (w *World) repeat(what string, n int, f func() bool) {
	if w.dead {
		return
	}
	ev := Ev{"e": "Repeat", "what": what, "n": n, "bad": 0, "res": "ok"}
	bad := 0
	if !w.guard(ev, func() {
		for i := 0; i < n; i++ {
			if !f() {
				bad++
			}
			if i&0xFFFFF == 0xFFFFF {
				w.w.begin()
			}
		}
	}) {
		w.dead = true
	}
	ev["bad"] = bad
	ev["er"] = w.b.Errored()
	if w.dead {
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
	} else {
		w.tally(ev)
	}
	w.tr.Emit(ev)
}

// repeatSession: operations on the same functions, a great number of calls
// apart.
func repeatSession(c Cfg, tr *Tracer, rng *rand.Rand, p *Profile, counts []int) {
	w := NewWorld(c, tr, rng, 8, 3)
	defer w.Close()
	for i := 0; i < 10; i++ {
		w.randomOp(p)
	}
	last := c.N - 1
	for _, n := range counts {
		for s := 1; s <= w.S; s++ {
			w.emitDrop(s)
		}
		w.Build(1, rng.Uint64()&w.full())
		w.Build(2, rng.Uint64()&w.full())
		vs := rng.Perm(c.N - 1)
		cut := 1 + rng.Intn(c.N-2)
		w.Makeset(3, vs[:cut])
		more := vs[cut:]
		if rng.Intn(2) == 0 {
			more = more[:1]
		}
		w.Makeset(4, more)
		w.Makeset(5, []int{last})
		if w.dead {
			return
		}
		quant := func(a, v int) {
			switch rng.Intn(3) {
			case 0:
				w.Exist(6, a, v)
			case 1:
				w.AppEx(6, a, 3-a, v, opnames[rng.Intn(4)])
			case 2:
				w.AndExist(6, a, 3-a, v)
			}
		}
		quant(1, 3)
		t := w.b.True()
		one := w.slots[5]
		if w.dead {
			return
		}
		w.repeat("Exist", n, func() bool { r := w.b.Exist(t, one); return r != nil && *r == 1 })
		quant(1, 4)
		if n > 1<<24 {
			continue
		}
		quant(2, 3)
		w.repeat("AppEx", n-1, func() bool { r := w.b.AppEx(t, t, rudd.OPand, one); return r != nil && *r == 1 })
		quant(1, 4)
		quant(2, 5)
		if n > 1<<20 {
			continue
		}
		w.randomRep(1)
		if as := w.replaceable(1); len(as) > 0 && w.reps[1] != nil {
			w.Replace(7, as[0], 1)
			w.repeat("Replace", n, func() bool { r := w.b.Replace(t, w.reps[1]); return r != nil && *r == 1 })
			w.Replace(7, as[0], 1)
			w.repeat("NewReplacer", n, func() bool { r, err := w.b.NewReplacer(nil, nil); return r != nil && err == nil })
			w.randomRep(2)
			for _, a := range w.replaceable(2) {
				w.Replace(7, a, 2)
			}
		}
		w.repeat("Apply", n, func() bool { r := w.b.Apply(t, t, rudd.OPand); return r != nil && *r == 1 })
		w.Apply(8, 1, 2, opnames[rng.Intn(10)])
		w.repeat("Ite", n, func() bool { r := w.b.Ite(t, t, t); return r != nil && *r == 1 })
		w.Ite(8, 1, 2, 8)
		w.repeat("Not", n, func() bool { r := w.b.Not(t); return r != nil && *r == 0 })
		w.Not(8, 2)
		w.checkAll()
	}
}
