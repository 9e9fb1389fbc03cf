package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/dalzilio/rudd"
)

// clamp keeps integers in the range of TLC; the values that matter are far smaller.
func clamp(x int) int { return max(-1<<30, min(1<<30, x)) }

func clampAll(xs []int) []int {
	r := []int{}
	for _, x := range xs {
		r = append(r, clamp(x))
	}
	return r
}

// tryNew calls New and observes what it returns.
func tryNew(tr *Tracer, wt *watch, rng *rand.Rand, varnum int, c Cfg, withopts bool, deep bool) {
	ev := Ev{"e": "TryNew", "vn": clamp(varnum), "raw": fmt.Sprint(varnum), "res": "ok", "er": false, "isnil": false, "varnum": -1, "vars": [][]int{},
		"nodesize": clamp(c.nodesize), "cachesize": clamp(c.cachesize), "cacheratio": clamp(c.cacheratio), "minfree": clamp(c.minfree),
		"maxinc": clamp(c.maxinc), "maxsize": clamp(c.maxsize), "opts": withopts, "al": 0, "cube": true, "pan": ""}
	wt.begin()
	func() {
		defer func() {
			if x := recover(); x != nil {
				ev["res"], ev["pan"] = "panic", fmt.Sprint(x)
			}
		}()
		var b *rudd.BDD
		var err error
		if withopts {
			// all the options, whatever their values
			b, err = rudd.New(varnum, rudd.Nodesize(c.nodesize), rudd.Cachesize(c.cachesize), rudd.Cacheratio(c.cacheratio),
				rudd.Minfreenodes(c.minfree), rudd.Maxnodeincrease(c.maxinc), rudd.Maxnodesize(c.maxsize))
		} else {
			b, err = rudd.New(varnum)
		}
		ev["isnil"] = b == nil
		if err != nil {
			ev["res"] = "err"
			return
		}
		if b == nil {
			return
		}
		ev["er"] = b.Errored()
		ev["varnum"] = b.Varnum()
		ev["al"] = counters(b).alloc
		probe := []int{}
		if varnum <= 300 && deep {
			for i := 0; i < varnum; i++ {
				probe = append(probe, i)
			}
		} else {
			for _, i := range []int{0, 1, varnum / 2, varnum - 2, varnum - 1, 255, 256, 65535, 65536, rng.Intn(varnum), rng.Intn(varnum)} {
				if i >= 0 && i < varnum {
					probe = append(probe, i)
				}
			}
		}
		vars := [][]int{}
		for _, i := range probe {
			p, n := b.Ithvar(i), b.NIthvar(i)
			t := []int{i}
			for _, x := range []rudd.Node{p, n} {
				if x == nil {
					t = append(t, -1, -1, -1)
					continue
				}
				lo, hi := b.Low(x), b.High(x)
				l, h := -1, -1
				if lo != nil {
					l = *lo
				}
				if hi != nil {
					h = *hi
				}
				t = append(t, b.Label(x), l, h)
			}
			vars = append(vars, t)
		}
		ev["vars"] = vars
		ev["er"] = b.Errored()
		runtime.KeepAlive(b)
	}()
	wt.end()
	tr.Emit(ev)
}

// tryRep calls NewReplacer and observes what the replacer does to variables.
func tryRep(tr *Tracer, w *World, old, new []int) {
	ev := Ev{"e": "TryRep", "v": w.cfg.V, "old": clampAll(old), "new": clampAll(new), "raw": fmt.Sprint(old, new), "res": "ok", "isnil": false,
		"er": false, "img": [][]int{}, "rid": 0, "pan": ""}
	if !w.guard(ev, func() {
		was := w.b.Errored()
		r, err := w.b.NewReplacer(old, new)
		ev["isnil"] = r == nil
		ev["er"] = w.b.Errored() != was
		if err != nil {
			ev["res"] = "err"
			return
		}
		if r == nil {
			return
		}
		ev["rid"] = r.Id()
		target := map[int]bool{}
		for i := range old {
			if i < len(new) && old[i] != new[i] {
				target[new[i]] = true
			}
		}
		img := [][]int{}
		for i := 0; i < w.cfg.V; i++ {
			if target[i] {
				continue
			}
			n := w.b.Replace(w.b.Ithvar(i), r)
			lab := -1
			if n != nil {
				lab = w.b.Label(n)
			}
			img = append(img, []int{i, lab})
		}
		ev["img"] = img
	}) {
		w.b, _ = newBDD(w.cfg)
	}
	if w.b.Errored() {
		w.b, _ = newBDD(w.cfg)
	}
	w.tr.Emit(ev)
}

func lists(n, lo, hi int) [][]int {
	res := [][]int{{}}
	if n == 0 {
		return res
	}
	for _, l := range lists(n-1, lo, hi) {
		if len(l) < n-1 {
			continue
		}
		for x := lo; x <= hi; x++ {
			res = append(res, append(append([]int{}, l...), x))
		}
	}
	if n > 1 {
		res = append(lists(n-1, lo, hi), res[1:]...)
	}
	return res
}

func paramsRun(tr *Tracer, rng *rand.Rand, what string, n int) {
	switch what {
	case "replacer": // exhaustive
		for _, p := range []struct{ v, len, lo, hi int }{{3, 2, -1, 3}, {2, 3, -1, 2}, {1, 2, -1, 1}, {4, 2, 0, 4}} {
			w := NewWorld(defaultCfg(p.v), tr, rng, 1, 1)
			ls := lists(p.len, p.lo, p.hi)
			for _, o := range ls {
				for _, l := range ls {
					tryRep(tr, w, o, l)
				}
			}
			tryRep(tr, w, nil, nil)
			tryRep(tr, w, nil, []int{})
			tryRep(tr, w, nil, []int{0})
			tryRep(tr, w, []int{0}, nil)
			big := []int{1 << 31, 1 << 32, 1<<32 + 1, -1 << 31, -1 << 32, -1 << 63, math.MaxInt64, math.MaxInt32, 1 << 16, -2, p.v, p.v + 1}
			for _, x := range big {
				tryRep(tr, w, []int{x}, []int{0})
				tryRep(tr, w, []int{0}, []int{x})
				tryRep(tr, w, []int{0, x}, []int{p.v - 1, x})
				tryRep(tr, w, []int{x, x}, []int{0, 1})
				tryRep(tr, w, []int{0, 1}, []int{x, x})
			}
			w.Close()
		}
	case "replacer3": // all the lists of length 3 over 4 variables
		w := NewWorld(defaultCfg(4), tr, rng, 1, 1)
		ls := lists(3, 0, 3)
		for _, o := range ls {
			for _, l := range ls {
				if len(o) == 3 && len(l) == 3 && rng.Intn(1000) < n {
					tryRep(tr, w, o, l)
				}
			}
		}
		w.Close()
	case "replacern": // longer lists, most of them valid or nearly so
		for k := 0; k < n; k++ {
			v := pickOf(rng, 5, 6, 9, 20, 64, 300)
			c := defaultCfg(v)
			c.N, c.basis = 2, []int{0, 1}
			w := NewWorld(c, tr, rng, 1, 1)
			for t := 0; t < 60; t++ {
				p := rng.Perm(v)
				m := rng.Intn(v/2 + 1)
				o, l := append([]int{}, p[:m]...), append([]int{}, p[m:2*m]...)
				for _, x := range p[2*m:] { // variables mapped to themselves
					if rng.Intn(4) == 0 {
						o, l = append(o, x), append(l, x)
					}
				}
				if rng.Intn(2) == 0 && len(o) > 0 { // something wrong, perhaps
					i := rng.Intn(len(o))
					switch rng.Intn(6) {
					case 0:
						o[i] = rng.Intn(v)
					case 1:
						l[i] = rng.Intn(v)
					case 2:
						l[i] = o[rng.Intn(len(o))]
					case 3:
						o[i] = l[rng.Intn(len(l))]
					case 4:
						l[i] = v
					case 5:
						o = o[1:]
					}
				}
				tryRep(tr, w, o, l)
			}
			w.Close()
		}
	case "new":
		wt := newWatch(tr)
		none := Cfg{}
		tr.Emit(Ev{"e": "Params"})
		for _, v := range []int{1, 2, 3, 7, 100, 255, 256, 257, 300, 4096, 65535, 65536, 65537, 1 << 18} {
			tryNew(tr, wt, rng, v, none, false, true)
		}
		for _, v := range []int{0, -1, -2, math.MinInt64, math.MinInt32, math.MaxInt32, math.MaxInt64, 2097152, 2097153, 1 << 22, 1 << 30, 1 << 31, 1 << 32, 1<<32 + 1, 1<<32 + 5,
			-1 << 32, -1<<32 + 3, 1<<21 + 1, 1 << 40, 1<<63 - 2} {
			tryNew(tr, wt, rng, v, none, false, false)
			tryNew(tr, wt, rng, v, Cfg{nodesize: 100, cachesize: 10, maxsize: 50}, true, false)
		}
		for k := 0; k < n; k++ {
			v := pickOf(rng, 1, 1, 2, 3, 5, 10, 40, 300, 1000)
			odd := []int{-1, -2, -100, -1 << 40, 0, 1, 2, 3, 4, 5, 10, 2*v + 1, 2*v + 2, 2*v + 3, 97, 100, 1000, 65536, 100003}
			o := func() int { return odd[rng.Intn(len(odd))] }
			c := Cfg{nodesize: o(), cachesize: pickOf(rng, -1, -7, 0, 1, 2, 3, 4, 9, 15, 25, 100, 10000, 100000), cacheratio: pickOf(rng, -5, -1, 0, 1, 20, 100, 1000),
				minfree: pickOf(rng, 0, 1, 20, 50, 99, 100, 101, -1), maxinc: o(), maxsize: o()}
			if rng.Intn(4) == 0 {
				c.nodesize = math.MinInt64
			}
			if rng.Intn(4) == 0 {
				c.maxsize = math.MaxInt64
			}
			if rng.Intn(4) == 0 {
				c.maxinc = pickOf(rng, math.MaxInt64, math.MinInt64)
			}
			tryNew(tr, wt, rng, v, c, true, rng.Intn(4) == 0)
		}
	case "newmax":
		wt := newWatch(tr)
		tr.Emit(Ev{"e": "Params"})
		tryNew(tr, wt, rng, 2097151, Cfg{}, false, false)
		runtime.GC()
		tryNew(tr, wt, rng, 2097151-1-rng.Intn(1<<19), Cfg{cachesize: 100}, true, false)
	}
}
