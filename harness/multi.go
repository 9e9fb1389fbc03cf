package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
)

// Several BDDs in one process (C15), and one program under many
// configurations (C06). The traces of such runs are compared event by event.

// memTracer keeps events until flushed.
func memTracer() *Tracer { return &Tracer{} }

func (t *Tracer) flushTo(o *Tracer) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, bs := range t.mem {
		o.raw(bs)
	}
	t.mem = nil
}

var cmpProfile = &Profile{Weights: map[string]int{"Const": 1, "Var": 8, "Copy": 1, "Not": 6, "Apply": 18, "Imp": 1, "Equiv": 1, "And": 3, "Or": 3,
	"Ite": 8, "Nested": 4, "Build": 5, "Makeset": 6, "Makecube": 4, "Scanset": 3, "Exist": 8, "AppEx": 8, "AndExist": 2, "Replace": 10,
	"NewRep": 3, "Custom": 3, "Low": 3, "High": 3, "Label": 3, "Satcount": 4, "Allsat": 4, "Allnodes": 2, "Print": 1, "Equal": 3,
	"Check": 6, "Drop": 8, "RunGC": 1}}

var cmpMisuse = &Profile{Weights: map[string]int{"Const": 1, "Var": 8, "Not": 6, "Apply": 12, "Ite": 6, "Build": 3, "Makeset": 4, "Exist": 4,
	"Replace": 4, "Satcount": 3, "Allsat": 2, "Misuse": 12, "Check": 6, "Drop": 4, "Scanset": 2, "Label": 2}}

// player runs a random program one step at a time.
type player struct {
	w *World
	p *Profile
	n int

	burst int // make many replacers each time this number of steps is made
}

func newPlayer(c Cfg, tr *Tracer, seed int64, p *Profile, n int) *player {
	rng := rand.New(rand.NewSource(seed))
	w := NewWorld(c, tr, rng, 8, 4)
	w.cmp, w.eatp = true, 15
	return &player{w, p, n, 0}
}

// step returns false when the program is over.
func (p *player) step() bool {
	if p.w.dead || p.n < 0 {
		return false
	}
	if p.n == 0 {
		p.w.checkAll()
		p.n = -1
		return false
	}
	if p.burst > 0 && p.n%p.burst == 0 {
		p.w.burst(200)
	}
	p.n--
	p.w.randomOp(p.p)
	return true
}

// shared chooses the part of a configuration that is common to all runs, seed
// the rest.
func cmpConfig(base *rand.Rand, tune *rand.Rand, k int, plain bool) Cfg {
	c := config(base, "def", 0)
	if plain {
		return c
	}
	v := c.V
	switch k % 4 {
	case 0: // defaults
	case 2: // caches that grow with a table that grows and is collected often
		c.nodesize, c.cachesize = pickOf(tune, 0, 2*v+3, 2*v+10, 2*v+40), pickOf(tune, 1, 50, 1000)
		c.minfree, c.maxinc = pickOf(tune, 0, 1, 5, 20), pickOf(tune, 1, 2, 3, 7, 20)
		c.cacheratio = pickOf(tune, 50, 200, 1000, 5000)
	case 1:
		c.nodesize, c.cachesize = pickOf(tune, 5000, 20000), pickOf(tune, 1, 3, 7, 30, 200, 5000)
		c.cacheratio = pickOf(tune, -1, 0, 10)
	default:
		c.nodesize = pickOf(tune, -1, 0, 1, v, 2*v+2, 2*v+3, 2*v+5, 2*v+10, 2*v+20)
		c.minfree = pickOf(tune, -1, 0, 0, 1, 5, 20, 50, 99, 100)
		c.maxinc = pickOf(tune, -1, 0, 1, 2, 5, 17, 40)
		c.cachesize = pickOf(tune, -1, 0, 1, 3, 10, 50, 300)
		c.cacheratio = pickOf(tune, -1, -1, 0, 1, 10, 50, 200, 1000, 5000)
	}
	return c
}

// cmpRun: sessions programs, each with a configuration drawn from the variant.
func cmpRun(tr *Tracer, seed int64, variant int64, sessions, steps int) {
	cmpProfile.init()
	cmpMisuse.init()
	for k := 0; k < sessions; k++ {
		base := rand.New(rand.NewSource(seed*1000003 + int64(k)))
		tune := rand.New(rand.NewSource(seed*1000003 + int64(k) + variant*7777777))
		c := cmpConfig(base, tune, int(variant), variant == 0)
		p := cmpProfile
		if k%5 == 4 {
			p = cmpMisuse
		}
		pl := newPlayer(c, tr, base.Int63(), p, steps)
		for pl.step() {
		}
		pl.w.Close()
	}
}

// multiRun: K programs on K BDDs, one after the other (solo), interleaved
// (inter), or in K goroutines (conc). The mode changes nothing else.
func multiRun(tr *Tracer, seed int64, mode string, sessions, K, steps int) {
	cmpProfile.init()
	cmpMisuse.init()
	for s := 0; s < sessions; s++ {
		trs := make([]*Tracer, K)
		start := func(i int) *player {
			base := rand.New(rand.NewSource(seed*1000003 + int64(s*100+i)))
			c := cmpConfig(base, base, base.Intn(8), false)
			p := cmpProfile
			if base.Intn(5) == 0 {
				p = cmpMisuse
			}
			trs[i] = memTracer()
			pl := newPlayer(c, trs[i], base.Int63(), p, steps)
			pl.burst = 25
			return pl
		}
		switch mode {
		case "solo":
			for i := 0; i < K; i++ {
				p := start(i)
				for p.step() {
				}
				p.w.Close()
			}
		case "inter":
			order := rand.New(rand.NewSource(seed*31 + int64(s)))
			ps := make([]*player, K)
			live := K
			done := make([]bool, K)
			for live > 0 {
				i := order.Intn(K)
				if done[i] {
					continue
				}
				if ps[i] == nil {
					ps[i] = start(i)
				}
				for n := 1 + order.Intn(3); n > 0; n-- {
					if !done[i] && !ps[i].step() {
						done[i] = true
						live--
					}
				}
			}
			for _, p := range ps {
				p.w.Close()
			}
		case "conc":
			var wg sync.WaitGroup
			gate := make(chan bool)
			for i := 0; i < K; i++ {
				wg.Add(1)
				trs[i] = memTracer()
				go func() {
					defer wg.Done()
					<-gate
					p := start(i)
					for p.step() {
						if p.n%7 == 0 {
							runtime.Gosched()
						}
					}
					p.w.Close()
				}()
			}
			close(gate)
			wg.Wait()
		default:
			fmt.Fprintln(os.Stderr, "DRIVER-ERROR unknown mode")
			os.Exit(2)
		}
		for i := 0; i < K; i++ {
			trs[i].flushTo(tr)
		}
	}
}

// burst makes many replacers, each one followed by a call that fails, and
// applies them to the same diagram.
func (w *World) burst(n int) {
	ev := Ev{"e": "Burst", "rid": []int{}, "wrong": 0, "failed": 0, "refused": 0}
	rids := []int{}
	w.info(ev, func() {
		v := w.b.Varnum()
		x := w.b.Ithvar(0)
		wrong, failed, refused := 0, 0, 0
		for k := 0; k < n; k++ {
			to := k % v
			old, new := []int{0}, []int{to}
			if to == 0 {
				old, new = nil, nil
			}
			r, err := w.b.NewReplacer(old, new)
			if err != nil || r == nil {
				failed++
				continue
			}
			rids = append(rids, r.Id())
			if bad, err := w.b.NewReplacer([]int{0, v}, []int{0, 0}); bad == nil && err != nil {
				refused++
			}
			if y := w.b.Ithvar(to); !w.b.Equal(w.b.Replace(x, r), y) {
				wrong++
			}
		}
		ev["rid"], ev["wrong"], ev["failed"], ev["refused"] = rids, wrong, failed, n-refused
	})
}

// marshal of an event, errors are fatal
func encode(e Ev) []byte {
	bs, err := json.Marshal(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(2)
	}
	return append(bs, '\n')
}
