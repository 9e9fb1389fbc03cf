package main

import (
	"fmt"
	"math/rand"

	"github.com/dalzilio/rudd"
)

// Exhaustive tables of operations over the functions of N variables.

type matrix struct {
	w    *World
	all  []rudd.Node // N <= 3: a node for each function
	code map[int]int // id of these nodes -> function
}

// build makes the function with code f; dnf selects another way to do it.
func (m *matrix) build(f int, dnf bool) rudd.Node {
	w := m.w
	if dnf {
		r := w.b.False()
		for k := 0; k < 1<<w.cfg.N; k++ {
			if f>>k&1 == 0 {
				continue
			}
			c := w.b.True()
			for i := 0; i < w.cfg.N; i++ {
				if k>>i&1 == 1 {
					c = w.b.And(w.b.Ithvar(w.cfg.basis[i]), c)
				} else {
					c = w.b.And(c, w.b.NIthvar(w.cfg.basis[i]))
				}
			}
			r = w.b.Or(c, r)
		}
		return r
	}
	var rec func(i, base, step int) rudd.Node
	rec = func(i, base, step int) rudd.Node {
		if i == w.cfg.N {
			return w.b.From(f>>base&1 == 1)
		}
		l, h := rec(i+1, base, step*2), rec(i+1, base+step, step*2)
		if l == nil || h == nil {
			return nil
		}
		return w.b.Ite(w.b.Ithvar(w.cfg.basis[i]), h, l)
	}
	return rec(0, 0, 1)
}

// val is the code of a node.
func (m *matrix) val(n rudd.Node) int {
	if n == nil {
		return -1
	}
	if m.code != nil {
		if f, ok := m.code[*n]; ok {
			return f
		}
	}
	g, err := m.w.graph(n)
	if err != nil {
		return -2
	}
	f, ok := m.w.denote(g, *n)
	if !ok {
		return -2
	}
	return int(f)
}

func (m *matrix) emit(ev Ev, f func()) bool {
	if m.w.dead {
		return false
	}
	ev["pan"], ev["er"] = "", false
	if !m.w.guard(ev, f) {
		m.w.dead = true
	} else {
		ev["er"] = m.w.b.Errored()
	}
	m.w.tr.Emit(ev)
	return !m.w.dead
}

// row records op(from), op(from+1), ...
func (m *matrix) row(ev Ev, from, n int, f func(k int) int) bool {
	res := make([]int, 0, n)
	ev["from"] = from
	ev["res"] = res
	return m.emit(ev, func() {
		for k := 0; k < n; k++ {
			res = append(res, f(from+k))
			ev["res"] = res
		}
	})
}

func (m *matrix) varset(v int) rudd.Node {
	vs := []int{}
	for i := 0; i < m.w.cfg.N; i++ {
		if v>>i&1 == 1 {
			vs = append(vs, m.w.cfg.basis[i])
		}
	}
	return m.w.b.Makeset(vs)
}

// at returns a node for function f
func (m *matrix) at(f int) rudd.Node {
	if m.all != nil {
		return m.all[f]
	}
	return m.build(f, false)
}

func newMatrix(c Cfg, tr *Tracer, rng *rand.Rand) *matrix {
	m := &matrix{w: NewWorld(c, tr, rng, 1, 1)}
	if m.w.dead || c.N > 3 {
		return m
	}
	size := 1 << (1 << c.N)
	code := map[int]int{}
	m.row(Ev{"e": "Row", "op": "id"}, 0, size, func(f int) int {
		n := m.build(f, false)
		m.all = append(m.all, n)
		v := m.val(n)
		if v >= 0 {
			code[*n] = v
		}
		return v
	})
	m.code = code
	return m
}

// finish observes again the nodes held from the start.
func (m *matrix) finish() {
	m.code = nil
	if m.all != nil && !m.w.dead {
		m.row(Ev{"e": "Row", "op": "id"}, 0, len(m.all), func(f int) int { return m.val(m.all[f]) })
	}
	m.w.Close()
}

func matrixConfig(rng *rand.Rand, n int) Cfg {
	v := n
	if rng.Intn(3) == 0 {
		v = n + 1 + rng.Intn(4)
	}
	c := Cfg{V: v, N: n, nodesize: pickOf(rng, -1, 0, 500, 5000), cachesize: pickOf(rng, -1, 1, 10, 100, 1000, 20000),
		cacheratio: pickOf(rng, -1, 0, 20), minfree: pickOf(rng, -1, 0, 20, 50), maxinc: pickOf(rng, -1, 0, 13, 100), maxsize: -1}
	c.basis = sorted(rng.Perm(v)[:n])
	return c
}

// chosen selects a share of the rows, out of 1000; all of them when deep.
func matrixRun(tr *Tracer, rng *rand.Rand, what string, share int) {
	pick := func() bool { return rng.Intn(1000) < share }
	switch what {
	case "apply":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		b := m.w.b
		if m.w.dead || len(m.all) < 256 {
			return
		}
		m.row(Ev{"e": "Row", "op": "not"}, 0, 256, func(f int) int { return m.val(b.Not(m.all[f])) })
		for _, k := range rng.Perm(10) {
			op := opnames[k]
			for _, a := range rng.Perm(256) {
				if !pick() {
					continue
				}
				via := rng.Intn(3)
				if !m.row(Ev{"e": "Row", "op": op, "a": a}, 0, 256, func(f int) int {
					x, y := m.all[a], m.all[f]
					if via == 0 {
						switch op {
						case "and":
							return m.val(b.And(x, y))
						case "or":
							return m.val(b.Or(x, y))
						case "imp":
							return m.val(b.Imp(x, y))
						case "biimp":
							return m.val(b.Equiv(x, y))
						}
					}
					return m.val(b.Apply(x, y, opvals[op]))
				}) {
					return
				}
			}
		}
	case "ite":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		if m.w.dead || len(m.all) < 256 {
			return
		}
		for _, k := range rng.Perm(65536) {
			if !pick() {
				continue
			}
			a, b := k>>8, k&255
			if !m.row(Ev{"e": "Row", "op": "ite", "a": a, "b": b}, 0, 256, func(f int) int {
				return m.val(m.w.b.Ite(m.all[a], m.all[b], m.all[f]))
			}) {
				return
			}
		}
	case "ite2":
		m := newMatrix(matrixConfig(rng, 2), tr, rng)
		defer m.finish()
		if m.w.dead || len(m.all) < 16 {
			return
		}
		for _, k := range rng.Perm(256) {
			a, b := k>>4, k&15
			if !m.row(Ev{"e": "Row", "op": "ite", "a": a, "b": b}, 0, 16, func(f int) int {
				return m.val(m.w.b.Ite(m.all[a], m.all[b], m.all[f]))
			}) {
				return
			}
		}
	case "exist":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		if m.w.dead || len(m.all) < 256 {
			return
		}
		for _, v := range rng.Perm(8) {
			m.row(Ev{"e": "Row", "op": "exist", "v": v}, 0, 256, func(f int) int { return m.val(m.w.b.Exist(m.all[f], m.varset(v))) })
		}
		type cell struct{ v, k, a int }
		cells := []cell{}
		for v := 0; v < 8; v++ {
			for k := 0; k < 4; k++ {
				for a := 0; a < 256; a++ {
					if pick() {
						cells = append(cells, cell{v, k, a})
					}
				}
			}
		}
		rng.Shuffle(len(cells), func(i, j int) { cells[i], cells[j] = cells[j], cells[i] })
		for _, c := range cells {
			op := appexops[c.k]
			vs := m.varset(c.v)
			same := true
			ev := Ev{"e": "AppExRow", "op": op, "a": c.a, "v": c.v, "same": true}
			ok := m.row(ev, 0, 256, func(f int) int {
				var r rudd.Node
				if op == "and" && rng.Intn(2) == 0 {
					r = m.w.b.AndExist(m.all[c.a], m.all[f], vs)
				} else {
					r = m.w.b.AppEx(m.all[c.a], m.all[f], opvals[op], vs)
				}
				if rng.Intn(8) == 0 {
					if !m.w.b.Equal(r, m.w.b.Exist(m.w.b.Apply(m.all[c.a], m.all[f], opvals[op]), vs)) {
						same = false
						ev["same"] = false
					}
				}
				return m.val(r)
			})
			if !ok || !same {
				return
			}
		}
	case "exist4", "count4", "shannon4", "id4":
		m := newMatrix(matrixConfig(rng, 4), tr, rng)
		defer m.finish()
		for _, k := range rng.Perm(256) {
			if !pick() || m.w.dead {
				continue
			}
			switch what {
			case "exist4":
				v := rng.Intn(16)
				vs := m.varset(v)
				m.row(Ev{"e": "Row", "op": "exist", "v": v}, k*256, 256, func(f int) int { return m.val(m.w.b.Exist(m.build(f, false), vs)) })
			case "id4":
				m.row(Ev{"e": "Row", "op": "id"}, k*256, 256, func(f int) int { return m.val(m.build(f, rng.Intn(2) == 0)) })
			case "count4":
				m.row(Ev{"e": "Row", "op": "count"}, k*256, 256, func(f int) int { return m.count(m.build(f, false)) })
			default:
				m.row(Ev{"e": "Row", "op": "low"}, k*256, 256, func(f int) int { return m.val(m.w.b.Low(m.build(f, false))) })
				m.row(Ev{"e": "Row", "op": "high"}, k*256, 256, func(f int) int { return m.val(m.w.b.High(m.build(f, false))) })
				m.label(k*256, 256)
			}
		}
	case "count":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		m.row(Ev{"e": "Row", "op": "count"}, 0, 256, func(f int) int { return m.count(m.at(f)) })
	case "shannon":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		m.row(Ev{"e": "Row", "op": "low"}, 0, 256, func(f int) int { return m.val(m.w.b.Low(m.at(f))) })
		m.row(Ev{"e": "Row", "op": "high"}, 0, 256, func(f int) int { return m.val(m.w.b.High(m.at(f))) })
		m.label(0, 256)
	case "equal":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		if m.w.dead {
			return
		}
		again := []rudd.Node{}
		m.row(Ev{"e": "Row", "op": "id"}, 0, 256, func(f int) int {
			again = append(again, m.build(f, true))
			return m.val(again[f])
		})
		for a := 0; a < 256 && !m.w.dead; a++ {
			res := []int{}
			ev := Ev{"e": "EqualRow", "a": a, "res": res}
			m.emit(ev, func() {
				for g := 0; g < 256; g++ {
					if m.w.b.Equal(m.all[a], again[g]) {
						res = append(res, g)
					}
				}
				ev["res"] = res
			})
		}
	case "replace":
		// all the valid renamings of three variables; a fresh status for each
		n := 3
		for k := 0; k < 27; k++ {
			img := []int{k % 3, k / 3 % 3, k / 9}
			old, new, ok := valid(img)
			if !ok {
				continue
			}
			m := newMatrix(matrixConfig(rng, n), tr, rng)
			w := m.w
			if w.dead || len(m.all) < 256 {
				return
			}
			p := rng.Perm(len(old))
			o2, n2 := []int{}, []int{}
			for _, i := range p {
				o2, n2 = append(o2, old[i]), append(n2, new[i])
			}
			fs := []int{}
			ev := Ev{"e": "ReplaceRow", "img": img, "fs": fs}
			ok = m.row(ev, 0, 256, func(f int) int {
				fs = append(fs, f)
				ev["fs"] = fs
				r, err := w.b.NewReplacer(w.levels(o2), w.levels(n2))
				if err != nil {
					return -3
				}
				return m.val(w.b.Replace(m.all[f], r))
			})
			m.w.Close()
			if !ok {
				return
			}
		}
	case "replace4":
		for t := 0; t < max(1, share/50); t++ {
			w := newMatrix(matrixConfig(rng, 4), tr, rng)
			p := rng.Perm(4)
			img := []int{0, 1, 2, 3}
			cnt := 1 + rng.Intn(2)
			old, new := p[:cnt], p[cnt:2*cnt]
			for i := range old {
				img[old[i]] = new[i]
			}
			r, err := w.w.b.NewReplacer(w.w.levels(old), w.w.levels(new))
			if err != nil {
				w.w.dead = true
			}
			ok := true
			for _, k := range rng.Perm(256)[:16] {
				fs := []int{}
				ev := Ev{"e": "ReplaceRow", "img": img, "fs": fs}
				ok = ok && w.row(ev, k*256, 256, func(f int) int {
					n := w.build(f, false)
					for _, v := range new { // no clash: it would leave an error
						n = w.w.b.Exist(n, w.w.b.Ithvar(w.w.cfg.basis[v]))
					}
					fs = append(fs, w.val(n))
					ev["fs"] = fs
					return w.val(w.w.b.Replace(n, r))
				})
			}
			w.w.Close()
			if !ok {
				return
			}
		}
	case "allsat", "allsat4":
		n, blocks := 3, 1
		if what == "allsat4" {
			n, blocks = 4, 256
		}
		m := newMatrix(matrixConfig(rng, n), tr, rng)
		defer m.finish()
		for _, k := range rng.Perm(blocks) {
			if blocks > 1 && !pick() {
				continue
			}
			rows := [][][2]int{}
			ev := Ev{"e": "AllsatRow", "from": k * 256, "res": rows}
			m.emit(ev, func() {
				for f := k * 256; f < k*256+256; f++ {
					rows = append(rows, m.cubes(m.at(f)))
				}
				ev["res"] = rows
			})
		}
	case "cubes":
		m := newMatrix(matrixConfig(rng, 3), tr, rng)
		defer m.finish()
		if m.w.dead {
			return
		}
		for pos := 0; pos < 8; pos++ {
			for neg := 0; neg < 8; neg++ {
				if pos&neg == 0 {
					m.cube(pos, neg)
				}
			}
		}
	default:
		panic("unknown table")
	}
}

// valid returns the lists of a renaming given by images.
func valid(img []int) (old, new []int, ok bool) {
	for i, v := range img {
		if v != i {
			old, new = append(old, i), append(new, v)
		}
	}
	for i, v := range new {
		for j, u := range new {
			if i != j && u == v {
				return nil, nil, false
			}
		}
		for _, o := range old {
			if o == v {
				return nil, nil, false
			}
		}
	}
	return old, new, true
}

func (m *matrix) count(n rudd.Node) int {
	if n == nil {
		return -1
	}
	c := m.w.b.Satcount(n)
	if c == nil || !c.IsInt64() {
		return -2
	}
	d := int64(1) << (m.w.cfg.V - m.w.cfg.N)
	if c.Int64()%d != 0 {
		return -3
	}
	return int(c.Int64() / d)
}

// label has nothing to say of constants (this is a misuse).
func (m *matrix) label(from, n int) {
	m.row(Ev{"e": "Row", "op": "label"}, from, n, func(f int) int {
		x := m.at(f)
		if x == nil || *x < 2 {
			return -1
		}
		return m.w.model(m.w.b.Label(x))
	})
}

func (m *matrix) cubes(n rudd.Node) [][2]int {
	res := [][2]int{}
	if n == nil {
		return [][2]int{{1, 1}}
	}
	err := m.w.b.Allsat(func(prof []int) error {
		c, frn := m.w.cube(prof)
		x := [2]int{}
		for i, v := range c {
			switch v {
			case 0:
				x[1] |= 1 << i
			case 1:
				x[0] |= 1 << i
			case -1:
			default:
				frn = true
			}
		}
		if frn {
			x = [2]int{1, 1}
		}
		res = append(res, x)
		return nil
	}, n)
	if err != nil {
		res = append(res, [2]int{1, 1})
	}
	return res
}

func (m *matrix) cube(pos, neg int) {
	w := m.w
	ev := Ev{"e": "CubeRow", "pos": pos, "neg": neg, "res": -1, "same": true, "set": []int{}}
	m.emit(ev, func() {
		vs, pol := []int{}, []bool{}
		ref := w.b.True()
		for i := 0; i < w.cfg.N; i++ {
			if pos>>i&1 == 1 {
				vs, pol = append(vs, w.cfg.basis[i]), append(pol, true)
				ref = w.b.And(ref, w.b.Ithvar(w.cfg.basis[i]))
			} else if neg>>i&1 == 1 {
				vs, pol = append(vs, w.cfg.basis[i]), append(pol, false)
				ref = w.b.And(ref, w.b.NIthvar(w.cfg.basis[i]))
			}
		}
		var n rudd.Node
		if len(vs) > 0 || w.cfg.V == w.cfg.N {
			if len(vs) == 0 {
				n = w.b.Makeset(nil)
			} else {
				n = w.b.Makecube(vs, pol)
			}
		} else {
			n = w.b.Makeset(vs)
		}
		ev["res"] = m.val(n)
		same := n != nil && w.b.Equal(n, ref)
		if neg == 0 {
			// Makeset, in every order, with repetitions
			set := []int{}
			for k := 0; k < 6; k++ {
				q := append([]int{}, vs...)
				w.rng.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
				if k%2 == 1 && len(q) > 0 {
					q = append(q, q[w.rng.Intn(len(q))])
				}
				s := w.b.Makeset(q)
				same = same && s != nil && w.b.Equal(s, ref)
				l := []int{}
				for _, x := range w.b.Scanset(s) {
					l = append(l, w.model(x))
				}
				if k == 0 || fmt.Sprint(l) != fmt.Sprint(set) {
					set = l
				}
			}
			ev["set"] = set
		}
		ev["same"] = same
	})
}
