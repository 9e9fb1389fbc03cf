package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"

	"github.com/dalzilio/rudd"
)

// Programs found by TLC in the specification Kernel, run on the real code.

type kcall struct {
	E   string         `json:"e"`
	Op  string         `json:"op"`
	As  []int          `json:"as"`
	Q   []int          `json:"q"`
	Img map[string]int `json:"img"`
	ID  int            `json:"id"`
	R   int            `json:"r"`
	Eat bool           `json:"eat"`
	Fz  bool           `json:"fz"`
}

type kprog struct {
	Mut string `json:"mut"`
	Cfg struct {
		NV, NS, Size, Limit, MinFree, MaxInc, Cache int
	} `json:"cfg"`
	Prog []kcall `json:"prog"`
}

func readPrograms(file string) []kprog {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(2)
	}
	defer f.Close()
	res := []kprog{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var p kprog
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
			os.Exit(2)
		}
		res = append(res, p)
	}
	return res
}

// replayAll runs each program with a few sizes of the table and the caches.
// With hammer, the Go runtime collects all the time, and the operands that a
// call gives up may disappear during it; without, it does only when the
// program says so.
func replayAll(tr *Tracer, rng *rand.Rand, file string, variants int, hammered bool) {
	if !hammered {
		debug.SetGCPercent(-1)
	}
	for _, p := range readPrograms(file) {
		for v := 0; v < variants; v++ {
			replayOne(tr, rng, p, v, hammered)
		}
		if !hammered {
			runtime.GC()
		}
	}
}

func replayOne(tr *Tracer, rng *rand.Rand, p kprog, variant int, hammered bool) {
	nv := p.Cfg.NV
	c := Cfg{V: nv, N: nv, nodesize: p.Cfg.Size, cachesize: p.Cfg.Cache, cacheratio: -1, minfree: p.Cfg.MinFree, maxinc: p.Cfg.MaxInc, maxsize: -1}
	if p.Cfg.Limit > 0 {
		c.maxsize = p.Cfg.Limit
	}
	if variant > 0 {
		d := rng.Intn(7) - 1
		c.nodesize = max(2*nv+2, c.nodesize+d)
		if p.Cfg.Limit > 0 {
			c.maxsize = max(2*nv+2, c.maxsize+d)
		}
		c.cachesize = pickOf(rng, -1, 1, 7, 30, p.Cfg.Cache, 1000)
		c.cacheratio = pickOf(rng, -1, -1, 0, 100, 1000)
		if variant > 2 {
			c.maxinc = pickOf(rng, p.Cfg.MaxInc, 1, 2, 3)
		}
	}
	c.basis = make([]int, nv)
	for i := range c.basis {
		c.basis[i] = i
	}
	ns := p.Cfg.NS
	w := NewWorld(c, tr, rng, ns+4, 1)
	w.track, w.plain = true, true
	defer w.Close()
	if w.dead {
		return
	}
	reps := map[int]rudd.Replacer{}
	imgs := map[int][]int{}
	for _, k := range p.Prog {
		if w.dead || w.b.Errored() && variant%2 == 0 {
			break
		}
		switch k.E {
		case "GoGC":
			if !hammered {
				w.goGC()
			}
			continue
		case "Drop":
			w.emitDrop(k.R)
			continue
		}
		// literals are put in the slots after those of the program
		as := append([]int{}, k.As...)
		eaten := []int{}
		live := true
		for i, a := range as {
			if a > ns {
				w.Var(ns+1+i, a%10, a < 20)
				as[i] = ns + 1 + i
				eaten = append(eaten, as[i])
			} else if k.Eat {
				eaten = append(eaten, a)
			}
			live = live && !w.dead && w.live[as[i]]
		}
		if !live {
			continue
		}
		q := append([]int{}, k.Q...)
		sort.Ints(q)
		v := ns + 4
		if k.E == "Exist" || k.E == "AppEx" {
			w.Makeset(v, q)
			if w.dead || !w.live[v] {
				continue
			}
			eaten = append(eaten, v)
		}
		if k.E == "Replace" && reps[k.ID] == nil {
			old, new := []int{}, []int{}
			img := make([]int, nv)
			for i := 0; i < nv; i++ {
				img[i] = k.Img[fmt.Sprint(i)]
				if img[i] != i {
					old, new = append(old, i), append(new, img[i])
				}
			}
			w.NewRep(1, old, new)
			if w.reps[1] == nil {
				continue
			}
			reps[k.ID], imgs[k.ID] = w.reps[1], img
		}
		if k.Fz && !k.Eat && !hammered {
			w.goGC()
		}
		w.kcall(k, as, eaten, v, reps, imgs)
	}
	if !w.dead {
		w.checkAll()
		w.table("Table")
	}
}

func (w *World) kcall(k kcall, as, eaten []int, v int, reps map[int]rudd.Replacer, imgs map[int][]int) {
	ev := Ev{"e": k.E}
	for i, a := range as {
		ev[[]string{"a", "b", "c"}[i]] = a
	}
	var f func() rudd.Node
	switch k.E {
	case "Not":
		f = func() rudd.Node { return w.b.Not(w.n(as[0])) }
	case "Apply":
		ev["op"] = k.Op
		f = func() rudd.Node { return w.b.Apply(w.n(as[0]), w.n(as[1]), opvals[k.Op]) }
	case "Ite":
		f = func() rudd.Node { return w.b.Ite(w.n(as[0]), w.n(as[1]), w.n(as[2])) }
	case "Exist":
		ev["v"] = v
		f = func() rudd.Node { return w.b.Exist(w.n(as[0]), w.n(v)) }
	case "AppEx":
		ev["v"], ev["op"] = v, k.Op
		f = func() rudd.Node { return w.b.AppEx(w.n(as[0]), w.n(as[1]), opvals[k.Op], w.n(v)) }
	case "Replace":
		ev["img"] = imgs[k.ID]
		f = func() rudd.Node { return w.b.Replace(w.n(as[0]), reps[k.ID]) }
	case "Set":
		w.Makeset(k.R, k.Q)
		return
	case "Low":
		f = func() rudd.Node { return w.b.Low(w.n(as[0])) }
	case "High":
		f = func() rudd.Node { return w.b.High(w.n(as[0])) }
	default:
		return
	}
	w.eat(ev, eaten)
	w.op(ev, k.R, f)
}
