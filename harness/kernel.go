package main

import (
	"math/rand"
	"runtime"

	"github.com/dalzilio/rudd"
)

// Programs of kernel calls.

type kern struct {
	w     *World
	nodes map[int]gnode // the driver's own idea of the table, to choose arguments
	stack []int
	ids   []int // ids of slots, 0 if none
}

func (k *kern) snap(kind string, force bool) {
	w := k.w
	ev := Ev{"e": kind, "res": "ok"}
	k.table(ev)
	w.tally(ev)
	w.tr.Emit(ev)
}

func (k *kern) table(ev Ev) {
	nodes := [][]int{}
	if !k.w.guard(ev, func() {
		k.nodes = map[int]gnode{}
		k.w.b.Allnodes(func(id, level, low, high int) error {
			nodes = append(nodes, []int{id, level, low, high})
			k.nodes[id] = gnode{level, low, high}
			return nil
		})
	}) {
		k.w.dead = true
	}
	ev["nodes"] = nodes
}

func (k *kern) level(id int) int {
	if id < 2 {
		return k.w.cfg.V
	}
	return k.nodes[id].lvl
}

// usable lists the nodes protected from collections.
func (k *kern) usable() []int {
	seen := map[int]bool{0: true, 1: true}
	res := []int{0, 1}
	var rec func(id int)
	rec = func(id int) {
		x, ok := k.nodes[id]
		if seen[id] || !ok {
			return
		}
		seen[id] = true
		res = append(res, id)
		rec(x.lo)
		rec(x.hi)
	}
	for i := 0; i < k.w.cfg.V; i++ {
		rec(*k.w.b.Ithvar(i))
		rec(*k.w.b.NIthvar(i))
	}
	for _, id := range k.stack {
		rec(id)
	}
	for _, id := range k.ids {
		rec(id)
	}
	return res
}

func (k *kern) make() int {
	w := k.w
	us := k.usable()
	var lo, hi, lv int
	for t := 0; ; t++ {
		// recent nodes more often
		pick := func() int {
			if w.rng.Intn(2) == 0 {
				return us[len(us)-1-w.rng.Intn(min(len(us), 4))]
			}
			return us[w.rng.Intn(len(us))]
		}
		lo, hi = pick(), pick()
		m := min(k.level(lo), k.level(hi))
		if m == 0 || (lo == hi && w.rng.Intn(4) != 0) {
			if t > 200 {
				lo, hi, m = 0, 1, w.cfg.V
			} else {
				continue
			}
		}
		lv = m - 1
		if w.rng.Intn(2) == 0 {
			lv = w.rng.Intn(m)
		}
		break
	}
	return k.makenode(lv, lo, hi)
}

func (k *kern) makenode(lv, lo, hi int) int {
	w := k.w
	ev := Ev{"e": "Make", "lv": lv, "lo": lo, "hi": hi, "id": -1, "res": "ok", "nodes": [][]int{}, "er": true}
	id := -1
	if !w.guard(ev, func() { id = w.b.Makenode(int32(lv), lo, hi) }) {
		w.dead = true
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
		w.tr.Emit(ev)
		return -1
	}
	ev["id"] = id
	w.tally(ev)
	ev["er"] = w.b.Errored()
	if ev["gc"].(int) > 0 {
		k.table(ev)
	} else if id > 1 {
		k.nodes[id] = gnode{lv, lo, hi}
	}
	w.tr.Emit(ev)
	return id
}

func (k *kern) push(id int) {
	r := k.w.b.Pushref(id)
	k.stack = append(k.stack, id)
	k.w.tr.Emit(Ev{"e": "Push", "n": id, "ret": r})
}

func (k *kern) pop(n int) {
	ev := Ev{"e": "Pop", "k": n, "res": "ok"}
	if !k.w.guard(ev, func() { k.w.b.Popref(n) }) {
		k.w.dead = true
	}
	k.stack = k.stack[:len(k.stack)-n]
	k.w.tr.Emit(ev)
}

func (k *kern) init() {
	k.w.b.Initref()
	k.stack = k.stack[:0]
	k.w.tr.Emit(Ev{"e": "Init"})
}

//go:noinline
func (k *kern) ret(s, id int) {
	w := k.w
	ev := Ev{"e": "Ret", "s": s, "n": id, "id": -1, "res": "ok"}
	var n rudd.Node
	if !w.guard(ev, func() {
		n = w.b.Retnode(id)
		if n != nil {
			ev["id"] = *n
		}
	}) || n == nil {
		w.dead = true
	}
	w.drop(s)
	w.slots[s], w.live[s] = n, n != nil
	k.ids[s] = id
	w.tr.Emit(ev)
}

func (k *kern) dropSlot(s int) {
	k.w.drop(s)
	k.ids[s] = 0
	k.w.tr.Emit(Ev{"e": "KDrop", "s": s})
}

// op runs an operation of the library on slots.
//
//go:noinline
func (k *kern) op(s, a, b int) {
	w := k.w
	ev := Ev{"e": "KOp", "s": s, "id": -1, "res": "ok", "tmp": []int{}}
	var n rudd.Node
	ok := w.guard(ev, func() {
		switch w.rng.Intn(3) {
		case 0:
			n = w.b.Not(w.slots[a])
		case 1:
			n = w.b.Ite(w.slots[a], w.slots[b], w.b.Ithvar(w.rng.Intn(w.cfg.V)))
		default:
			n = w.b.Apply(w.slots[a], w.slots[b], opvals[opnames[w.rng.Intn(10)]])
		}
	})
	w.b.Initref()
	k.stack = k.stack[:0]
	if !ok {
		w.dead = true
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"], ev["er"], ev["nodes"] = 0, 0, 0, 0, 0, true, [][]int{}
		w.tr.Emit(ev)
		return
	}
	w.tally(ev)
	k.table(ev)
	ev["er"] = w.b.Errored()
	w.drop(s)
	w.slots[s], w.live[s] = n, n != nil
	k.ids[s] = 0
	if n != nil {
		ev["id"] = *n
		if *n > 1 {
			k.ids[s] = *n
		}
	}
	w.tr.Emit(ev)
}

func kernelSession(c Cfg, tr *Tracer, rng *rand.Rand, steps int) {
	const S = 5
	w := NewWorld(c, tr, rng, S, 1)
	w.track, w.plain = true, true
	defer w.Close()
	if w.dead {
		return
	}
	k := &kern{w: w, ids: make([]int, S+1)}
	k.snap("Sync", true)
	w.b.Initref()
	last := -1
	for i := 0; i < steps && !w.dead; i++ {
		s := 1 + rng.Intn(S)
		switch x := rng.Intn(100); {
		case x < 55:
			last = k.make()
			if last > 1 && rng.Intn(3) > 0 {
				k.push(last)
			}
		case x < 63:
			if us := k.usable(); len(us) > 2 {
				k.push(us[rng.Intn(len(us))])
			}
		case x < 73:
			if len(k.stack) > 0 {
				n := 1 + rng.Intn(min(3, len(k.stack)))
				if rng.Intn(10) == 0 {
					n = len(k.stack)
				}
				k.pop(n)
			}
		case x < 75:
			k.init()
		case x < 84:
			// last may have been collected since
			if _, ok := k.nodes[last]; ok && last > 1 {
				k.ret(s, last)
			} else if us := k.usable(); len(us) > 2 {
				k.ret(s, us[2+rng.Intn(len(us)-2)])
			}
		case x < 90:
			if w.live[s] {
				k.dropSlot(s)
			}
		case x < 93:
			w.goGC()
		case x < 95:
			runtime.GC()
		case x < 97:
			a, b := w.pick(), w.pick()
			if a != 0 && b != 0 {
				k.op(s, a, b)
			}
		default:
			k.snap("Snap", false)
		}
		if len(k.stack) > 12 && rng.Intn(2) == 0 {
			k.pop(len(k.stack) / 2)
		}
	}
	if !w.dead {
		k.snap("Snap", false)
	}
}
