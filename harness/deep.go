package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	mbits "math/bits"
	"math/rand"
	"runtime"
	"sort"
	"time"

	"github.com/dalzilio/rudd"
)

// Programs over diagrams thousands of levels deep.

// deepForm is what the driver makes of the shape of a node, to choose calls.
type deepForm struct {
	kind string // cube, clause, parity, const, other
	vars []int
	pos  []bool
}

type deep struct {
	*World
	forms []deepForm
	eat   bool // operands are often given up by the call that uses them
}

// take gets the nodes of some slots, and sometimes empties these slots: the
// call is then the last one to refer to the nodes.
//
//go:noinline
func (d *deep) take(ev Ev, slots ...int) *[4]rudd.Node {
	box := &[4]rudd.Node{}
	for i, s := range slots {
		box[i] = d.slots[s]
	}
	eat := []int{}
	if d.eat {
		mode := d.rng.Intn(4)
		for _, s := range slots {
			if d.live[s] && (mode < 2 || mode == 2 && d.rng.Intn(2) == 0) {
				eat = append(eat, s)
				d.drop(s)
			}
		}
	}
	ev["eat"] = eat
	return box
}

func give(box *[4]rudd.Node) (a, b, c, v rudd.Node) {
	a, b, c, v = box[0], box[1], box[2], box[3]
	*box = [4]rudd.Node{}
	return
}

// deepShape lists the nodes in preorder, low branches first.
func deepShape(g map[int]gnode, root int) (sh []int, ok bool) {
	pos := map[int]int{0: -1, 1: -2}
	order := []int{}
	stack := []int{root}
	for len(stack) > 0 {
		id := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if _, seen := pos[id]; seen {
			continue
		}
		x, found := g[id]
		if !found {
			return nil, false
		}
		pos[id] = len(order)
		order = append(order, id)
		stack = append(stack, x.hi, x.lo)
	}
	sh = make([]int, 0, 3*len(order))
	for _, id := range order {
		x := g[id]
		sh = append(sh, x.lvl, pos[x.lo], pos[x.hi])
	}
	return sh, true
}

func classify(sh []int) deepForm {
	k := len(sh) / 3
	if k == 0 {
		return deepForm{kind: "const"}
	}
	cube, clause := true, true
	f := deepForm{}
	for i := 0; i < k; i++ {
		lo, hi := sh[3*i+1], sh[3*i+2]
		next, end := i+1, i == k-1
		f.vars = append(f.vars, sh[3*i])
		switch {
		case lo == -1 && (hi == next && !end || end && hi == -2), hi == -1 && (lo == next && !end || end && lo == -2):
			if !end {
				clause = false
			}
			f.pos = append(f.pos, lo == -1)
		case lo == -2 && hi == next && !end, hi == -2 && lo == next && !end:
			cube = false
			f.pos = append(f.pos, hi == -2)
		default:
			cube, clause = false, false
		}
	}
	switch {
	case cube:
		f.kind = "cube"
	case clause:
		f.kind = "clause"
	default:
		f.kind = "other"
		if k%2 == 1 && k > 1 {
			w := (k + 1) / 2
			par := true
			for i := 1; i < w; i++ {
				par = par && sh[3*i] == sh[3*(2*w-1-i)]
			}
			if par {
				f.kind, f.vars, f.pos = "parity", f.vars[:w], nil
			}
		}
	}
	return f
}

func shHash(root int, g map[int]gnode) string {
	ids := make([]int, 0, len(g))
	for k := range g {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	h := fnv.New64a()
	var buf [32]byte
	put := func(x int) {
		for i := 0; i < 8; i++ {
			buf[i] = byte(x >> (8 * i))
		}
		h.Write(buf[:8])
	}
	put(root)
	for _, k := range ids {
		put(k)
		put(g[k].lvl)
		put(g[k].lo)
		put(g[k].hi)
	}
	return fmt.Sprintf("%x", h.Sum64())
}

func (d *deep) look(ev Ev, n rudd.Node) (f deepForm) {
	f.kind = "other"
	ev["id"], ev["good"], ev["sh"], ev["gh"] = *n, false, []int{}, ""
	g := map[int]gnode{}
	good := true
	err := d.b.Allnodes(func(id, level, low, high int) error {
		if _, dup := g[id]; dup || (id > 1 && low == high) {
			good = false
		}
		if id > 1 {
			g[id] = gnode{level, low, high}
		}
		return nil
	}, n)
	sh, ok := deepShape(g, *n)
	if err != nil || !ok {
		return f
	}
	for i := 0; i < len(sh); i += 3 {
		for _, c := range sh[i+1 : i+3] {
			if c >= 0 && sh[3*c] <= sh[i] {
				good = false
			}
		}
	}
	ev["good"] = good && 3*len(g) == len(sh)
	ev["sh"] = sh
	ev["gh"] = shHash(*n, g)
	return classify(sh)
}

//go:noinline
func (d *deep) call(ev Ev, r int, f func() rudd.Node) {
	if d.dead {
		return
	}
	ev["r"], ev["id"], ev["good"], ev["sh"], ev["gh"], ev["eq"], ev["er"] = r, -1, true, []int{}, "", []int{}, true
	t := time.Now()
	n := d.invoke(ev, f)
	ev["ms"] = time.Since(t).Milliseconds()
	if ev["res"] == "panic" {
		d.dead = true
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
		d.tr.Emit(ev)
		return
	}
	d.tally(ev)
	d.drop(r)
	ev["er"] = d.b.Errored()
	if n == nil {
		ev["res"] = "nil"
		d.tr.Emit(ev)
		return
	}
	ev["res"] = "ok"
	if d.guard(ev, func() {
		d.forms[r] = d.look(ev, n)
		eq := []int{}
		for t := 1; t <= d.S; t++ {
			if t != r && d.live[t] && d.b.Equal(d.slots[t], n) {
				eq = append(eq, t)
			}
		}
		ev["eq"] = eq
	}) == false {
		d.dead = true
	}
	d.slots[r], d.live[r] = n, true
	d.tr.Emit(ev)
	if !d.dead && d.forms[r].kind == "other" {
		d.emitDrop(r)
	}
}

// lits chooses k variables and polarities.
func (d *deep) lits(k int) (vs []int, pol []bool) {
	V := d.cfg.V
	if k*2 > V {
		for i := 0; i < V; i++ {
			if d.rng.Intn(V) < k {
				vs = append(vs, i)
			}
		}
	} else {
		seen := map[int]bool{}
		for _, x := range []int{0, V - 1, V / 2, 1 << 16, 1<<16 - 1, 1 << 20, 1<<20 - 1, 1 << 8} {
			if x < V && len(seen) < k && d.rng.Intn(3) == 0 {
				seen[x] = true
			}
		}
		base, span := 0, V
		if V > 4*k && d.rng.Intn(3) == 0 { // consecutive levels
			span = 2 * k
			base = d.rng.Intn(V - span)
		}
		for len(seen) < k {
			seen[base+d.rng.Intn(span)] = true
		}
		for x := range seen {
			vs = append(vs, x)
		}
		sort.Ints(vs)
	}
	mode := d.rng.Intn(3)
	for range vs {
		pol = append(pol, mode == 0 || (mode == 1 && d.rng.Intn(2) == 0))
	}
	return vs, pol
}

func (d *deep) depth() int {
	m := d.cfg.maxdepth
	switch d.rng.Intn(5) {
	case 0:
		return 1 + d.rng.Intn(5)
	case 1:
		return 1 + d.rng.Intn(min(m, 60))
	case 2:
		return 1 + d.rng.Intn(m)
	default:
		return m - d.rng.Intn(m/10+1)
	}
}

// literals of a variant of the form in slot a
func (d *deep) variant(a int) (vs []int, pol []bool) {
	f := d.forms[a]
	p := f.pos
	if f.kind == "parity" {
		p = make([]bool, len(f.vars))
		for i := range p {
			p[i] = d.rng.Intn(2) == 0
		}
	}
	mode := d.rng.Intn(5)
	cut := d.rng.Intn(len(f.vars))
	for i, v := range f.vars {
		x := p[i]
		switch mode {
		case 0: // one polarity changed
			if i == cut {
				x = !x
			}
		case 1: // one literal less
			if i == cut && len(f.vars) > 1 {
				continue
			}
		case 2: // a suffix
			if i < cut {
				continue
			}
		case 3: // a prefix
			if i > cut {
				continue
			}
		case 4: // all reversed
			x = !x
		}
		vs, pol = append(vs, v), append(pol, x)
	}
	return vs, pol
}

func (d *deep) kcube(r int, vs []int, pol []bool) {
	ev := Ev{"e": "KCube", "vs": vs, "pol": pol}
	d.call(ev, r, func() rudd.Node {
		d.b.Initref()
		n := 1
		k := d.rng.Intn(3)
		for i := len(vs) - 1; i >= 0; i-- {
			if pol[i] {
				n = d.b.Makenode(int32(vs[i]), 0, n)
			} else {
				n = d.b.Makenode(int32(vs[i]), n, 0)
			}
			if n < 0 {
				return nil
			}
			switch {
			case k == 0: // all the nodes stay in the stack
				d.b.Pushref(n)
			case k == 1: // only the last one
				d.b.Popref(min(1, len(vs)-1-i))
				d.b.Pushref(n)
			default: // blocks
				d.b.Pushref(n)
				if i%100 == 99 && len(vs)-i >= 50 {
					d.b.Popref(50)
					d.b.Pushref(n)
				}
			}
		}
		x := d.b.Retnode(n)
		d.b.Initref()
		return x
	})
}

func (d *deep) step() {
	if d.dead {
		return
	}
	rng := d.rng
	r, a, b, c := d.target(), d.pick(), d.pick(), d.pick()
	if a == 0 {
		vs, pol := d.lits(d.depth())
		d.kcube(r, vs, pol)
		return
	}
	litsFor := func() ([]int, []bool) {
		if f := d.forms[a]; rng.Intn(2) == 0 && f.kind != "const" {
			return d.variant(a)
		}
		return d.lits(d.depth())
	}
	switch x := rng.Intn(100); {
	case x < 4:
		val := rng.Intn(2) == 0
		d.call(Ev{"e": "Const", "val": val}, r, func() rudd.Node { return d.b.From(val) })
	case x < 8:
		vs, pol := d.lits(1)
		d.call(Ev{"e": "Var", "i": vs[0], "pol": pol[0]}, r, func() rudd.Node {
			if pol[0] {
				return d.b.Ithvar(vs[0])
			}
			return d.b.NIthvar(vs[0])
		})
	case x < 20:
		vs, pol := litsFor()
		d.kcube(r, vs, pol)
	case x < 26:
		if d.plain {
			return
		}
		vs, pol := litsFor()
		d.call(Ev{"e": "Makecube", "vs": vs, "pol": pol}, r, func() rudd.Node { return d.b.Makecube(vs, pol) })
	case x < 31:
		if d.plain {
			return
		}
		vs, _ := litsFor()
		if len(vs) > 1500 { // quadratic
			vs = vs[:1500]
		}
		us := append([]int{}, vs...)
		if rng.Intn(2) == 0 {
			rng.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
		}
		d.call(Ev{"e": "Makeset", "vs": us}, r, func() rudd.Node { return d.b.Makeset(us) })
	case x < 39:
		ev := Ev{"e": "Not", "a": a}
		box := d.take(ev, a)
		d.call(ev, r, func() rudd.Node {
			x, _, _, _ := give(box)
			return d.b.Not(x)
		})
	case x < 59:
		op := opnames[rng.Intn(10)]
		ev := Ev{"e": "Apply", "a": a, "b": b, "op": op}
		box := d.take(ev, a, b)
		d.call(ev, r, func() rudd.Node {
			x, y, _, _ := give(box)
			return d.b.Apply(x, y, opvals[op])
		})
	case x < 67:
		ev := Ev{"e": "Ite", "a": a, "b": b, "c": c}
		box := d.take(ev, a, b, c)
		d.call(ev, r, func() rudd.Node {
			x, y, z, _ := give(box)
			return d.b.Ite(x, y, z)
		})
	case x < 79:
		// a variable set
		v := 0
		for t := 0; t < 10 && v == 0; t++ {
			if y := d.pick(); d.forms[y].kind == "cube" || (d.forms[y].kind == "const" && *d.slots[y] == 1) {
				ok := true
				for _, p := range d.forms[y].pos {
					ok = ok && p
				}
				if ok {
					v = y
				}
			}
		}
		if v == 0 {
			return
		}
		if rng.Intn(2) == 0 {
			ev := Ev{"e": "Exist", "a": a, "v": v}
			box := d.take(ev, a, v)
			d.call(ev, r, func() rudd.Node {
				x, y, _, _ := give(box)
				return d.b.Exist(x, y)
			})
			return
		}
		op := []string{"and", "xor", "or", "nand"}[rng.Intn(4)]
		ev := Ev{"e": "AppEx", "a": a, "b": b, "v": v, "op": op}
		box := d.take(ev, a, b, v)
		d.call(ev, r, func() rudd.Node {
			x, y, z, _ := give(box)
			return d.b.AppEx(x, y, opvals[op], z)
		})
	case x < 86:
		d.replace(r, a)
	case x < 90:
		d.call(Ev{"e": "Low", "a": a}, r, func() rudd.Node { return d.b.Low(d.slots[a]) })
	case x < 94:
		d.call(Ev{"e": "High", "a": a}, r, func() rudd.Node { return d.b.High(d.slots[a]) })
	default:
		d.parity(r)
	}
}

// eatStep makes fresh operands and gives them up to one call.
func (d *deep) eatStep() {
	rng := d.rng
	p := rng.Perm(d.S)
	a, b, c, v := p[0]+1, p[1]+1, p[2]+1, p[3]+1
	fresh := func(s int) {
		if d.dead {
			return
		}
		if rng.Intn(5) == 0 { // a clause, from the negation of a cube
			vs, pol := d.lits(1 + rng.Intn(d.cfg.V/2))
			d.kcube(s, vs, pol)
			if !d.dead {
				d.call(Ev{"e": "Not", "a": s}, s, func() rudd.Node { return d.b.Not(d.slots[s]) })
			}
			return
		}
		vs, pol := d.lits(d.depth() * 2 / 3)
		if len(vs) == 0 {
			vs, pol = []int{0}, []bool{true}
		}
		d.kcube(s, vs, pol)
	}
	set := func() {
		vs, pol := d.lits(1 + rng.Intn(d.cfg.V/4))
		switch rng.Intn(3) {
		case 0: // low in the diagram
			vs, pol = []int{d.cfg.V - 1}, []bool{true}
			if f := d.forms[a]; rng.Intn(2) == 0 && d.live[a] && len(f.vars) > 0 {
				vs = f.vars[len(f.vars)-1:]
			}
		}
		for i := range pol {
			pol[i] = true
		}
		d.kcube(v, vs, pol)
	}
	ok := func(ss ...int) bool {
		for _, s := range ss {
			if d.dead || !d.live[s] {
				return false
			}
		}
		return true
	}
	ev := Ev{"e": "Not", "a": a}
	switch rng.Intn(6) {
	case 0:
		fresh(a)
		if !ok(a) {
			return
		}
		box := d.take(ev, a)
		d.call(ev, a, func() rudd.Node {
			x, _, _, _ := give(box)
			return d.b.Not(x)
		})
	case 1:
		fresh(a)
		fresh(b)
		if !ok(a, b) {
			return
		}
		op := opnames[rng.Intn(10)]
		ev = Ev{"e": "Apply", "a": a, "b": b, "op": op}
		box := d.take(ev, a, b)
		d.call(ev, a, func() rudd.Node {
			x, y, _, _ := give(box)
			return d.b.Apply(x, y, opvals[op])
		})
	case 2:
		fresh(a)
		fresh(b)
		fresh(c)
		if !ok(a, b, c) {
			return
		}
		ev = Ev{"e": "Ite", "a": a, "b": b, "c": c}
		box := d.take(ev, a, b, c)
		d.call(ev, a, func() rudd.Node {
			x, y, z, _ := give(box)
			return d.b.Ite(x, y, z)
		})
	case 3:
		fresh(a)
		set()
		if !ok(a, v) {
			return
		}
		ev = Ev{"e": "Exist", "a": a, "v": v}
		box := d.take(ev, a, v)
		d.call(ev, a, func() rudd.Node {
			x, y, _, _ := give(box)
			return d.b.Exist(x, y)
		})
	case 4:
		fresh(a)
		fresh(b)
		set()
		if !ok(a, b, v) {
			return
		}
		op := []string{"and", "xor", "or", "nand"}[rng.Intn(4)]
		ev = Ev{"e": "AppEx", "a": a, "b": b, "v": v, "op": op}
		box := d.take(ev, a, b, v)
		d.call(ev, a, func() rudd.Node {
			x, y, z, _ := give(box)
			return d.b.AppEx(x, y, opvals[op], z)
		})
	case 5:
		fresh(a)
		if ok(a) {
			d.replace(a, a)
		}
	}
	if !d.dead && d.live[a] {
		d.check(a)
	}
}

// parity builds the exclusive or of variables, bottom up.
func (d *deep) parity(r int) {
	vs, _ := d.lits(1 + min(d.depth()/3, d.cfg.maxparity))
	d.kparity(r, vs)
}

func (d *deep) kparity(r int, vs []int) {
	bit := d.rng.Intn(2)
	d.call(Ev{"e": "KParity", "vs": vs, "bit": bit}, r, func() rudd.Node {
		d.b.Initref()
		even, odd := bit, 1-bit
		for i := len(vs) - 1; i >= 0; i-- {
			e := d.b.Pushref(d.b.Makenode(int32(vs[i]), even, odd))
			o := d.b.Pushref(d.b.Makenode(int32(vs[i]), odd, even))
			if e < 0 || o < 0 {
				return nil
			}
			even, odd = e, o
		}
		x := d.b.Retnode(even)
		d.b.Initref()
		return x
	})
}

// shareStep makes a call on diagrams with few nodes and very many branches.
func (d *deep) shareStep() {
	rng := d.rng
	for s := 1; s <= 3; s++ {
		if !d.live[s] || d.forms[s].kind != "parity" || rng.Intn(10) == 0 {
			vs := []int{}
			for v := 0; v < d.cfg.V; v++ {
				if s == 1 || rng.Intn(8) > 0 {
					vs = append(vs, v)
				}
			}
			d.kparity(s, vs)
		}
	}
	vs := []int{}
	for _, v := range rng.Perm(d.cfg.V)[:1+rng.Intn(2)] {
		vs = append(vs, v)
	}
	d.call(Ev{"e": "Makeset", "vs": vs}, 4, func() rudd.Node { return d.b.Makeset(vs) })
	if d.dead {
		return
	}
	a, b, c, v := 1+rng.Intn(3), 1+rng.Intn(3), 1+rng.Intn(4), 4
	if rng.Intn(4) == 0 && d.live[5] {
		b = 5
	}
	r := 5 + rng.Intn(2)
	switch rng.Intn(6) {
	case 0:
		d.call(Ev{"e": "Not", "a": a}, r, func() rudd.Node { return d.b.Not(d.slots[a]) })
	case 1:
		op := opnames[rng.Intn(10)]
		d.call(Ev{"e": "Apply", "a": a, "b": b, "op": op}, r, func() rudd.Node { return d.b.Apply(d.slots[a], d.slots[b], opvals[op]) })
	case 2:
		d.call(Ev{"e": "Ite", "a": a, "b": b, "c": c}, r, func() rudd.Node { return d.b.Ite(d.slots[a], d.slots[b], d.slots[c]) })
	case 3:
		d.call(Ev{"e": "Exist", "a": a, "v": v}, r, func() rudd.Node { return d.b.Exist(d.slots[a], d.slots[v]) })
	case 4:
		op := []string{"and", "xor", "or", "nand"}[rng.Intn(4)]
		d.call(Ev{"e": "AppEx", "a": a, "b": b, "v": v, "op": op}, r, func() rudd.Node { return d.b.AppEx(d.slots[a], d.slots[b], opvals[op], d.slots[v]) })
	case 5:
		d.shift(r, 2+rng.Intn(2))
	}
}

// shift renames some variables of the parity in slot a, in the same order.
func (d *deep) shift(r, a int) {
	in := map[int]bool{}
	for _, v := range d.forms[a].vars {
		in[v] = true
	}
	old, new := []int{}, []int{}
	for v := range d.cfg.V - 1 {
		if in[v] && !in[v+1] {
			old, new = append(old, v), append(new, v+1)
		}
	}
	rep, err := d.b.NewReplacer(old, new)
	if err != nil {
		return
	}
	d.call(Ev{"e": "Replace", "a": a, "old": old, "new": new}, r, func() rudd.Node { return d.b.Replace(d.slots[a], rep) })
}

func (d *deep) replace(r, a int) {
	f := d.forms[a]
	V := d.cfg.V
	if len(f.vars) == 0 || len(f.vars) > 2*V/3 {
		return
	}
	in := map[int]bool{}
	for _, v := range f.vars {
		in[v] = true
	}
	k := 1 + d.rng.Intn(len(f.vars))
	rev := d.rng.Intn(2) == 0
	if rev {
		k = min(k, 400)
	}
	start := d.rng.Intn(len(f.vars) - k + 1)
	old := append([]int{}, f.vars[start:start+k]...)
	new := []int{}
	// unused variables, from the first of the old ones on or anywhere
	x := old[0]
	if d.rng.Intn(2) == 0 {
		x = d.rng.Intn(V)
	}
	for t := 0; t < V && len(new) < len(old); t++ {
		if y := (x + t) % V; !in[y] {
			new = append(new, y)
		}
	}
	if len(new) < len(old) {
		return
	}
	if rev {
		sort.Sort(sort.Reverse(sort.IntSlice(new)))
	} else {
		sort.Ints(new)
	}
	if d.rng.Intn(8) == 0 { // maybe a clash
		new[0] = f.vars[d.rng.Intn(len(f.vars))]
	}
	// Replace is slow when it changes the order of the variables
	to := map[int]int{}
	for i, v := range old {
		to[v] = new[i]
	}
	last, changed := -1, false
	for _, v := range f.vars {
		if x, ok := to[v]; ok {
			v = x
		}
		changed = changed || v < last
		last = max(last, v)
	}
	if changed && (f.kind == "parity" && len(f.vars) > 14 || f.kind != "parity" && k > 400) {
		return
	}
	var rep rudd.Replacer
	var err error
	rep, err = d.b.NewReplacer(old, new)
	if err != nil {
		return
	}
	ev := Ev{"e": "Replace", "a": a, "old": old, "new": new}
	box := d.take(ev, a)
	d.call(ev, r, func() rudd.Node {
		x, _, _, _ := give(box)
		return d.b.Replace(x, rep)
	})
	if !d.dead && d.b.Errored() { // go on with a fresh BDD
		d.dead = true
	}
}

func (d *deep) check(s int) {
	if d.dead || !d.live[s] {
		return
	}
	ev := Ev{"e": "Check", "s": s, "res": "ok", "id": -1}
	if !d.guard(ev, func() { d.look(ev, d.slots[s]) }) {
		d.dead = true
	}
	delete(ev, "sh")
	ev["er"] = d.b.Errored()
	d.tr.Emit(ev)
}

//go:noinline
func (d *deep) info() {
	a := d.pick()
	if d.dead || a == 0 {
		return
	}
	f := d.forms[a]
	kind := []string{"Satcount", "Allsat", "Scanset", "Label", "Dump"}[d.rng.Intn(5)]
	ev := Ev{"e": kind, "a": a, "res": "ok"}
	n := d.slots[a]
	body := func() {}
	switch kind {
	case "Satcount":
		body = func() {
			c := d.b.Satcount(n)
			ones, lo := 0, -1
			for i, w := range c.Bits() {
				ones += mbits.OnesCount(uint(w))
				if lo < 0 && w != 0 {
					lo = i*mbits.UintSize + mbits.TrailingZeros(uint(w))
				}
			}
			ev["zero"], ev["lo"], ev["hi"], ev["ones"] = c.Sign() == 0, lo, c.BitLen()-1, ones
		}
	case "Allsat":
		if len(f.vars) > 20 && f.kind != "cube" || f.kind == "parity" && len(f.vars) > 6 {
			return
		}
		cubes := [][][]int{}
		ev["good"], ev["ret"], ev["cubes"] = true, "nil", cubes
		body = func() {
			if e := d.b.Allsat(func(prof []int) error {
				p, q := []int{}, []int{}
				if len(prof) != d.cfg.V {
					ev["good"] = false
				}
				for i, v := range prof {
					switch v {
					case 1:
						p = append(p, i)
					case 0:
						q = append(q, i)
					case -1:
					default:
						ev["good"] = false
					}
				}
				if len(cubes) < 3000 {
					cubes = append(cubes, [][]int{p, q})
				}
				return nil
			}, n); e != nil {
				ev["ret"] = "err"
			}
			ev["cubes"] = cubes
		}
	case "Scanset":
		if f.kind == "const" && *n == 0 || f.kind != "cube" && f.kind != "const" {
			return
		}
		body = func() {
			s := d.b.Scanset(n)
			if s == nil {
				s = []int{}
			}
			ev["set"] = s
		}
	case "Label":
		if f.kind == "const" {
			return
		}
		body = func() { ev["lab"] = d.b.Label(n) }
	case "Dump":
		if len(f.vars) > 4000 || f.kind == "const" || d.b.Errored() {
			return
		}
		dot := d.rng.Intn(2) == 0
		ev["dot"], ev["sh"] = dot, []int{}
		body = func() {
			var buf bytes.Buffer
			sub := Ev{"text": ""}
			g := map[int]gnode{}
			if !dot {
				d.b.Print(&buf, n)
				parsePrint(sub, buf.String())
				for _, x := range sub["nodes"].([][]int) {
					g[x[0]] = gnode{x[1], x[2], x[3]}
				}
			} else {
				if d.b.Dot(&buf, n) != nil {
					return
				}
				parseDot(sub, buf.String())
				for _, x := range sub["nodes"].([][]int) {
					if x[0] > 1 {
						g[x[0]] = gnode{x[1], 0, 0}
					}
				}
				for _, x := range sub["edges"].([][]int) {
					y := g[x[0]]
					if x[1] == 0 {
						y.lo = x[2]
					} else {
						y.hi = x[2]
					}
					g[x[0]] = y
				}
			}
			if sh, ok := deepShape(g, *n); ok && len(sh) == 3*len(g) && sub["text"] == "" {
				ev["sh"] = sh
			}
		}
	}
	t := time.Now()
	done := d.guard(ev, body)
	ev["ms"] = time.Since(t).Milliseconds()
	if !done {
		d.dead = true
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
	} else {
		d.tally(ev)
	}
	ev["er"] = d.b.Errored()
	d.tr.Emit(ev)
}

// gc forces a collection of the table.
func (d *deep) gc() {
	if d.dead {
		return
	}
	if d.plain {
		settle()
	} else {
		runtime.GC()
	}
	alive := []zombie{}
	for _, z := range d.zom {
		if z.p.Value() != nil {
			alive = append(alive, z)
		}
	}
	d.zom = alive
	ev := Ev{"e": "Collect", "res": "ok", "plain": d.plain, "zom": len(alive), "forced": false, "reach": 0}
	if !d.guard(ev, func() {
		ev["forced"] = d.fill()
		live := []rudd.Node{}
		for s := 1; s <= d.S; s++ {
			if d.live[s] {
				live = append(live, d.slots[s])
			}
		}
		n := 0
		if len(live) > 0 {
			d.b.Allnodes(func(id, level, low, high int) error {
				if id > 1 && !(low < 2 && high < 2) {
					n++
				}
				return nil
			}, live...)
		}
		ev["reach"] = n
	}) {
		d.dead = true
		ev["gc"], ev["al"], ev["pr"], ev["us"], ev["fr"] = 0, 0, 0, 0, 0
	} else {
		d.tally(ev)
	}
	ev["er"] = d.b.Errored()
	d.tr.Emit(ev)
}

// fill makes nodes that nothing protects until a collection happens; only the
// last one is made after the collection. Their children are variables.
func (d *deep) fill() bool {
	b, V := d.b, d.cfg.V
	b.Initref()
	was := counters(b).gcs
	n := 0
	for i := V - 1; i > 0; i-- {
		hi := *b.Ithvar(i)
		for j := i - 1; j >= 0 && j > i-3000; j-- {
			if b.Makenode(int32(j), hi, 0) < 0 {
				return false
			}
			if counters(b).gcs > was {
				return true
			}
			if n++; n > 300000 {
				return false
			}
		}
	}
	return false
}

func deepCfg(rng *rand.Rand, kind string, k int) Cfg {
	c := Cfg{maxparity: 1 << 30, nodesize: -1, cachesize: -1, cacheratio: -1, minfree: -1, maxinc: -1, maxsize: -1}
	switch kind {
	case "deep":
		c.V = pickOf(rng, 1500, 4000, 5000, 9000)
		c.maxdepth = min(c.V, 6000)
	case "deeper":
		c.V = pickOf(rng, 33000, 66000, 70001, 131073)
		c.maxdepth = min(c.V, 34000)
	case "huge":
		c.V = pickOf(rng, 2097151, 2097151, 1048576, 1048577, 1500000)
		c.maxdepth = 2000
	case "eat":
		c.V = pickOf(rng, 100, 300, 700)
		c.maxdepth = c.V
	case "gc":
		c.V = pickOf(rng, 300, 700, 1200)
		c.maxdepth = c.V
	case "share":
		c.V = pickOf(rng, 60, 80, 100, 300, 800, 1500)
		c.maxdepth = c.V
	}
	if rng.Intn(2) == 0 || kind == "gc" || kind == "eat" {
		c.nodesize = 2*c.V + pickOf(rng, 3, 10, 200)
		c.minfree = pickOf(rng, 0, 0, 1, 20)
		c.maxinc = pickOf(rng, 0, 1000, 5000, c.V)
	}
	switch kind {
	case "gc":
		c.maxinc = pickOf(rng, 5, 50, 200)
	case "eat":
		c.minfree, c.maxinc = 0, pickOf(rng, 1, 1, 2, 5)
		c.nodesize = 2*c.V + 2 + pickOf(rng, 1, 5, 20)
	case "huge":
		c.nodesize = 2*c.V + pickOf(rng, 10, 20000, 50000)
		c.minfree, c.maxinc = 0, pickOf(rng, 20000, 100000)
	}
	// with smaller caches operations take exponential time
	c.cachesize = pickOf(rng, 10, 20, 40) * c.maxdepth
	if kind == "gc" || kind == "eat" {
		c.cachesize = pickOf(rng, -1, 100, 1000)
		c.maxparity = 10
	}
	if kind == "share" {
		c.cachesize = pickOf(rng, 40, 60) * c.V
		if c.V <= 100 {
			c.cachesize = pickOf(rng, -1, c.cachesize)
		}
	}
	c.cacheratio = pickOf(rng, -1, -1, 300)
	if kind == "gc" || kind == "eat" {
		c.cacheratio = pickOf(rng, -1, 5, 25)
	}
	return c
}

func deepSession(c Cfg, tr *Tracer, rng *rand.Rand, steps int, share bool) {
	const S = 6
	c.N, c.basis = 1, []int{0}
	w := &World{cfg: c, tr: tr, rng: rng, S: S, K: 1, w: newWatch(tr)}
	defer w.Close()
	ev := Ev{"e": "New", "varnum": c.V, "S": S, "res": "ok", "got": -1, "nodesize": c.nodesize, "cachesize": c.cachesize,
		"cacheratio": c.cacheratio, "minfree": c.minfree, "maxinc": c.maxinc}
	var err error
	if !w.guard(ev, func() { w.b, err = newBDD(c) }) || err != nil {
		if ev["res"] == "ok" {
			ev["res"] = "err"
		}
		ev["al"], ev["pr"] = 0, 0
		tr.Emit(ev)
		return
	}
	w.slots, w.live = make([]rudd.Node, S+1), make([]bool, S+1)
	w.fs, w.vset = make([]uint64, S+1), make([]bool, S+1)
	w.last = counters(w.b)
	ev["al"], ev["pr"], ev["got"] = w.last.alloc, w.last.produced, w.b.Varnum()
	tr.Emit(ev)
	d := &deep{World: w, forms: make([]deepForm, S+1)}
	w.track = true
	w.plain = rng.Intn(2) == 0
	d.eat = c.maxinc > 0 && c.maxinc < 10 || rng.Intn(4) == 0
	for i := 0; i < steps && !w.dead; i++ {
		switch x := rng.Intn(10); {
		case share && x < 6:
			d.shareStep()
		case x < 7 && d.eat && c.maxinc < 10 && c.maxinc > 0:
			d.eatStep()
		case x < 6:
			d.step()
		case x < 8:
			d.info()
		case x < 9:
			d.check(d.target())
		default:
			if rng.Intn(3) == 0 {
				for s := 1; s <= S; s++ {
					if rng.Intn(2) == 0 {
						d.emitDrop(s)
					}
				}
				d.gc()
				for s := 1; s <= S; s++ {
					d.check(s)
				}
			} else {
				d.emitDrop(d.target())
			}
		}
	}
}
