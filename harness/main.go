package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

var (
	scen     = flag.String("scen", "ops", "scenario")
	seed     = flag.Int64("seed", 1, "random seed")
	sessions = flag.Int("sessions", 10, "number of sessions")
	steps    = flag.Int("steps", 100, "steps per session")
	profile  = flag.String("profile", "bool", "profile of random programs")
	confs    = flag.String("cfg", "mixed", "family of configurations")
	out      = flag.String("out", "", "trace file")
	ham      = flag.Int("hammer", 0, "run the Go garbage collector in the background, pause in microseconds")
	input    = flag.String("in", "", "behaviours to replay")
	size     = flag.Int("size", 0, "scenario dependent size")
)

var profiles = map[string]*Profile{
	"bool": {Weights: map[string]int{"Const": 2, "Var": 10, "Copy": 1, "Not": 12, "Apply": 40, "Imp": 4, "Equiv": 4, "And": 4, "Or": 4,
		"Ite": 25, "Nested": 3, "Build": 6, "Exist": 2, "AppEx": 2, "Replace": 2, "Makeset": 2, "Drop": 2, "SweepOps": 3, "SweepIte": 3}},
	"quant": {Weights: map[string]int{"Const": 1, "Var": 6, "Not": 2, "Apply": 12, "Ite": 4, "Build": 8, "Makeset": 12, "Exist": 25,
		"AppEx": 30, "AndExist": 8, "Replace": 2, "Drop": 2, "SweepSets": 8}},
	"rename": {Weights: map[string]int{"Const": 1, "Var": 6, "Not": 2, "Apply": 12, "Ite": 4, "Build": 8, "Makeset": 3, "Exist": 3,
		"AppEx": 3, "NewRep": 8, "Replace": 40, "Drop": 2, "SweepRep": 5}},
	"mixed": {Weights: map[string]int{"Const": 1, "Var": 8, "Copy": 2, "Not": 8, "Apply": 20, "Imp": 1, "Equiv": 1, "And": 2, "Or": 2,
		"Ite": 10, "Nested": 4, "Build": 6, "Makeset": 5, "Makecube": 4, "Exist": 8, "AppEx": 8, "AndExist": 2, "Replace": 8,
		"NewRep": 1, "Custom": 3, "Makenode": 3, "Low": 3, "High": 3, "Check": 10, "Drop": 6, "RunGC": 2}},
	"hold": {Weights: map[string]int{"Const": 1, "Var": 4, "Copy": 3, "Not": 8, "Apply": 20, "Ite": 10, "Nested": 3, "Build": 6, "Makeset": 3,
		"Makecube": 3, "Exist": 6, "AppEx": 6, "Replace": 5, "Custom": 2, "Makenode": 4, "Low": 15, "High": 15, "Check": 20, "Drop": 15, "RunGC": 5}},
	"canon": {Weights: map[string]int{"Const": 3, "Var": 8, "Copy": 1, "Not": 10, "Apply": 30, "Ite": 12, "Nested": 3, "Build": 8,
		"Makeset": 4, "Makecube": 4, "Exist": 8, "AppEx": 8, "Replace": 6, "Custom": 5, "Makenode": 5, "Low": 3, "High": 3, "Equal": 8, "Table": 3,
		"Drop": 5, "RunGC": 1}},
	"count": {Weights: map[string]int{"Const": 4, "Var": 8, "Not": 5, "Apply": 15, "Ite": 8, "Build": 10, "Makecube": 4, "Satcount": 45,
		"Exist": 2, "Makeset": 2, "Drop": 2}},
	"allsat": {Weights: map[string]int{"Const": 4, "Var": 8, "Not": 5, "Apply": 15, "Ite": 8, "Build": 12, "Makecube": 4, "Allsat": 45,
		"Drop": 2}},
	"dump": {Weights: map[string]int{"Const": 4, "Var": 8, "Not": 5, "Apply": 15, "Ite": 8, "Build": 8, "Makecube": 4, "Allnodes": 20,
		"Print": 12, "Dot": 12, "Table": 8, "Drop": 4, "RunGC": 1}},
	"sets": {Weights: map[string]int{"Const": 1, "Var": 6, "Apply": 6, "Makeset": 30, "Makecube": 30, "Scanset": 30, "And": 8, "Build": 4,
		"Drop": 4, "Equal": 4}},
	"shannon": {Weights: map[string]int{"Const": 6, "Var": 14, "Not": 4, "Apply": 12, "Ite": 8, "Build": 8, "Low": 20, "High": 20, "Label": 20,
		"Drop": 4, "Makecube": 3}},
	"misuse": {Weights: map[string]int{"Const": 2, "Var": 8, "Not": 8, "Apply": 20, "Ite": 8, "Build": 4, "Makeset": 6, "Makecube": 4,
		"Exist": 6, "AppEx": 6, "Replace": 4, "Low": 3, "High": 3, "Misuse": 45, "Check": 20, "Drop": 5, "Label": 3, "Satcount": 3,
		"Scanset": 2, "Allsat": 2}},
	"limit": {Weights: map[string]int{"Const": 1, "Var": 8, "Not": 8, "Apply": 25, "Ite": 12, "Build": 8, "Nested": 4, "Makeset": 4, "Makecube": 4,
		"Exist": 8, "AppEx": 8, "Replace": 6, "Custom": 4, "Low": 2, "High": 2, "Check": 15, "Drop": 12, "RunGC": 3}},
	"callback": {Weights: map[string]int{"Const": 1, "Var": 8, "Not": 8, "Apply": 25, "Ite": 12, "Build": 8, "Nested": 3, "Makeset": 4,
		"Exist": 6, "AppEx": 6, "Replace": 4, "Check": 12, "Drop": 8, "EnumSat": 10, "EnumNodes": 10, "EnumAll": 4, "RunGC": 1}},
	"custom": {Weights: map[string]int{"Const": 1, "Var": 6, "Not": 10, "Apply": 15, "Ite": 8, "Build": 5, "Custom": 25, "Makenode": 30, "Low": 4,
		"High": 4, "Exist": 8, "AppEx": 5, "Makeset": 4, "Check": 10, "Drop": 6, "RunGC": 1}},
}

// spread chooses n levels among v.
func spread(rng *rand.Rand, n, v int) []int {
	if v <= 4096 {
		return sorted(rng.Perm(v)[:n])
	}
	m := map[int]bool{}
	for _, x := range []int{0, v - 1, 255, 256, 65535, 65536} {
		if x < v && len(m) < n && rng.Intn(2) == 0 {
			m[x] = true
		}
	}
	for len(m) < n {
		m[rng.Intn(v)] = true
	}
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	return sorted(r)
}

func pickOf(rng *rand.Rand, xs ...int) int { return xs[rng.Intn(len(xs))] }

// config chooses the options of a session.
func config(rng *rand.Rand, family string, k int) Cfg {
	n := pickOf(rng, 3, 4, 5, 5, 6)
	v := n
	if rng.Intn(3) == 0 {
		v = pickOf(rng, n+1, n+3, n+7, 70, 130)
	}
	c := Cfg{V: v, N: n, nodesize: -1, cachesize: -1, cacheratio: -1, minfree: -1, maxinc: -1, maxsize: -1}
	tiny := func() {
		c.nodesize = pickOf(rng, -1, 2*v+3, 2*v+5, 2*v+10, 2*v+20)
		c.minfree = pickOf(rng, -1, 0, 0, 1, 5, 20, 50, 99, 100)
		c.maxinc = pickOf(rng, -1, 0, 1, 2, 5, 17, 40)
		c.cachesize = pickOf(rng, -1, 0, 1, 3, 10, 50, 300)
		c.cacheratio = pickOf(rng, -1, -1, 0, 1, 10, 50, 200, 1000, 5000)
	}
	large := func() {
		c.nodesize = pickOf(rng, 5000, 20000)
		c.cachesize = pickOf(rng, -1, 1, 3, 7, 30, 200, 5000)
		c.cacheratio = pickOf(rng, -1, 0, 10)
	}
	switch family {
	case "mixed":
		if k%2 == 0 {
			tiny()
		} else {
			large()
		}
	case "tiny":
		tiny()
	case "gcstress": // a collection at nearly every new node
		c.nodesize, c.minfree = pickOf(rng, -1, 2*v+3, 2*v+6), pickOf(rng, 0, 0, 0, 1, 3, 20)
		c.gcing = true
		c.maxinc = pickOf(rng, 1, 1, 2, 3, 0)
		c.cachesize = pickOf(rng, -1, 1, 10, 100)
		c.cacheratio = pickOf(rng, -1, 0, 5, 50, 3000)
	case "large":
		large()
	case "limit":
		tiny()
		c.maxsize = 2*v + 2 + pickOf(rng, 1, 2, 3, 5, 8, 13, 20, 30, 45, 60)
		if rng.Intn(8) == 0 {
			c.maxsize = pickOf(rng, 1, v, 2*v, 2*v+1, 2*v+2)
		}
		if rng.Intn(4) == 0 {
			c.nodesize = c.maxsize + pickOf(rng, 0, 1, 10, 1000)
		}
	case "wide":
		if k%3 == 0 {
			v = pickOf(rng, 300, 66000, 70001)
			c.V = v
		}
		if k%2 == 0 {
			tiny()
		}
	case "gc": // small tables with enough variables to build many nodes
		tiny()
	case "stress":
		tiny()
		c.minfree, c.maxinc = pickOf(rng, -1, 0, 20, 100, 100), pickOf(rng, -1, 1, 7, 50)
	case "recover":
		n = pickOf(rng, 3, 4, 4, 5)
		v = n + pickOf(rng, 0, 0, 1, 5)
		c.N, c.V = n, v
		tiny()
		c.maxsize = 2*v + 2 + 1<<n + pickOf(rng, 0, 0, 1, 2, 5, 10)
	case "loop":
		n = pickOf(rng, 5, 6)
		c.N, c.V = n, n
		c.minfree, c.maxinc = pickOf(rng, -1, 0, 5, 20, 50), pickOf(rng, -1, 0, 1, 10, 100)
	case "kernel":
		v = pickOf(rng, 2, 3, 3, 4, 4, 5, 6)
		n = v
		c.N, c.V = n, v
		tiny()
		if rng.Intn(3) == 0 {
			c.minfree = rng.Intn(101)
		}
		if rng.Intn(4) == 0 {
			c.nodesize = 2*v + 2 + rng.Intn(80)
		}
		if rng.Intn(4) == 0 {
			c.maxsize = 2*v + 2 + rng.Intn(40)
		}
	case "def":
	}
	c.basis = spread(rng, n, c.V)
	return c
}

func main() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	tr := NewTracer(*out)
	go watchdog()
	rng := rand.New(rand.NewSource(*seed))
	if *ham > 0 {
		stop := make(chan bool)
		var wg sync.WaitGroup
		wg.Add(1)
		go hammer(stop, &wg, time.Duration(*ham)*time.Microsecond)
		defer func() { close(stop); wg.Wait() }()
	}
	switch *scen {
	case "ops":
		p, ok := profiles[*profile]
		if !ok {
			fmt.Fprintln(os.Stderr, "DRIVER-ERROR unknown profile")
			os.Exit(2)
		}
		p.Steps = *steps
		p.init()
		for k := 0; k < *sessions; k++ {
			c := config(rng, *confs, k)
			runSession(c, tr, rng, p, 10, 3, false)
		}
	case "gc", "stress", "recover", "loop":
		p := profiles[*profile]
		p.Steps = *steps
		p.init()
		for k := 0; k < *sessions; k++ {
			c := config(rng, *confs, k)
			switch *scen {
			case "gc":
				gcSession(c, tr, rng, p, 8, 6, k%3 == 0)
			case "stress":
				stressSession(c, tr, rng, p, 8, 4, *size)
			case "recover":
				recoverSession(c, tr, rng, p, 8, 8)
			case "loop":
				loopSession(c, tr, rng, *size, 20)
			}
		}
	case "repeat":
		p := profiles["mixed"]
		p.init()
		for k := 0; k < *sessions; k++ {
			counts := []int{}
			for e := 2; e <= *size; e++ {
				for d := -2; d <= 1; d++ {
					if e <= 10 || rng.Intn(3) == 0 || d == -1 {
						counts = append(counts, max(1, 1<<e+d))
					}
				}
			}
			if *size > 30 {
				counts = []int{1<<31 - 3}
			}
			repeatSession(config(rng, *confs, k), tr, rng, p, counts)
		}
	case "replay":
		replayAll(tr, rng, *input, *size, *ham > 0)
	case "misuse":
		for k := 0; k < *sessions; k++ {
			misuseSweep(tr, rng)
		}
	case "leak":
		for k := 0; k < *sessions; k++ {
			leakSweep(config(rng, *confs, k), tr, rng, *size)
		}
	case "kernel":
		for k := 0; k < *sessions; k++ {
			c := config(rng, "kernel", k)
			kernelSession(c, tr, rng, *steps)
		}
	case "deep":
		for k := 0; k < *sessions; k++ {
			deepSession(deepCfg(rng, *confs, k), tr, rng, *steps, *confs == "share")
		}
	case "cmp":
		cmpRun(tr, *seed, int64(*size), *sessions, *steps)
	case "multi":
		multiRun(tr, *seed, *profile, *sessions, *size, *steps)
	case "params":
		paramsRun(tr, rng, *profile, *size)
	case "matrix":
		for k := 0; k < *sessions; k++ {
			matrixRun(tr, rng, *profile, *size)
		}
	default:
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR unknown scenario")
		os.Exit(2)
	}
	tr.Emit(Ev{"e": "End"})
}
