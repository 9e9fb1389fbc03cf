// Package main drives the real rudd library and records what it does as a
// trace of events, one JSON object per line.  The driver never decides
// whether something is right: that is left to the TLA+ trace specifications.
package main

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dalzilio/rudd"
)

// Ev is an event of a trace.
type Ev map[string]any

// Tracer writes events, unbuffered, so that a crash loses nothing.
type Tracer struct {
	mu  sync.Mutex
	f   *os.File // nil: keep the events in memory
	n   int
	mem [][]byte
}

func NewTracer(path string) *Tracer {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(2)
	}
	return &Tracer{f: f}
}

func (t *Tracer) Emit(e Ev) { t.raw(encode(e)) }

func (t *Tracer) raw(bs []byte) {
	t.mu.Lock()
	if t.f == nil {
		t.mem = append(t.mem, bs)
	} else {
		t.f.Write(bs)
	}
	t.n++
	t.mu.Unlock()
}

// watch guards against calls that never return.
type watch struct {
	start atomic.Int64 // unix nano of the call in progress, or 0
}

var watches sync.Map

func newWatch(t *Tracer) *watch {
	w := &watch{}
	watches.Store(w, t)
	return w
}

func (w *watch) release() { watches.Delete(w) }
func (w *watch) begin()   { w.start.Store(time.Now().UnixNano()) }
func (w *watch) end()     { w.start.Store(0) }

const hangLimit = 100 * time.Second

func watchdog() {
	for {
		time.Sleep(time.Second)
		watches.Range(func(k, v any) bool {
			s := k.(*watch).start.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
				v.(*Tracer).Emit(Ev{"e": "Hang"})
				os.Exit(0)
			}
			return true
		})
	}
}

// Counters are the figures of Stats.
type Counters struct {
	alloc, produced, free, used, gcs int
}

var (
	reAlloc = regexp.MustCompile(`Allocated:\s*(\d+)`)
	reProd  = regexp.MustCompile(`Produced:\s*(\d+)`)
	reFree  = regexp.MustCompile(`Free:\s*(-?\d+)`)
	reUsed  = regexp.MustCompile(`Used:\s*(-?\d+)`)
	reGC    = regexp.MustCompile(`# of GC:\s*(\d+)`)
	reVar   = regexp.MustCompile(`Varnum:\s*(\d+)`)
)

func num(re *regexp.Regexp, s string) int {
	m := re.FindStringSubmatch(s)
	if m == nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR no", re.String(), "in Stats:", s)
		os.Exit(2)
	}
	v, _ := strconv.Atoi(m[1])
	return v
}

func counters(b *rudd.BDD) Counters {
	s := b.Stats()
	return Counters{num(reAlloc, s), num(reProd, s), num(reFree, s), num(reUsed, s), num(reGC, s)}
}
