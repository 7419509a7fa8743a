package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Lin is a linear form over atom terms.
type Lin struct {
	c int64
	v map[*Term]int64
}

func (l Lin) clone() Lin {
	n := Lin{c: l.c, v: make(map[*Term]int64, len(l.v))}
	for k, x := range l.v {
		n.v[k] = x
	}
	return n
}
func (l *Lin) add(o Lin, k int64) {
	l.c += k * o.c
	for a, x := range o.v {
		l.v[a] += k * x
		if l.v[a] == 0 {
			delete(l.v, a)
		}
	}
}

func linConst(n int64) Lin { return Lin{c: n, v: map[*Term]int64{}} }

// linOf linearises an integer term; products become canonical monomial atoms.
func (t *Terms) linOf(x *Term) Lin {
	if n, ok := x.intVal(); ok {
		return linConst(n)
	}
	switch x.op {
	case OBin:
		switch x.tok {
		case token.ADD:
			a := t.linOf(x.args[0])
			a.add(t.linOf(x.args[1]), 1)
			return a
		case token.SUB:
			if isUnsigned(x.typ) {
				break
			}
			a := t.linOf(x.args[0])
			a.add(t.linOf(x.args[1]), -1)
			return a
		case token.MUL:
			a, b := t.linOf(x.args[0]), t.linOf(x.args[1])
			return t.linMul(a, b)
		case token.SHL:
			if n, ok := x.args[1].intVal(); ok && n >= 0 && n < 30 {
				a := linConst(0)
				a.add(t.linOf(x.args[0]), 1<<uint(n))
				return a
			}
		}
	case ONeg:
		a := linConst(0)
		a.add(t.linOf(x.args[0]), -1)
		return a
	}
	return Lin{v: map[*Term]int64{x: 1}}
}

func (t *Terms) linMul(a, b Lin) Lin {
	r := linConst(a.c * b.c)
	for m, k := range a.v {
		if b.c != 0 {
			r.add(Lin{v: map[*Term]int64{m: 1}}, k*b.c)
		}
	}
	for m, k := range b.v {
		if a.c != 0 {
			r.add(Lin{v: map[*Term]int64{m: 1}}, k*a.c)
		}
	}
	for m, k := range a.v {
		for n, l := range b.v {
			r.add(Lin{v: map[*Term]int64{t.mono(m, n): 1}}, k*l)
		}
	}
	return r
}

func (t *Terms) mono(a, b *Term) *Term {
	var fs []*Term
	f := func(x *Term) {
		if x.op == OPure && x.name == "·" {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	f(a)
	f(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return t.mk(&Term{op: OPure, name: "·", args: fs, typ: types.Typ[types.Int]})
}

// LinEq reports that two integer terms have the same polynomial normal form.
func (t *Terms) LinEq(a, b *Term) bool {
	x := t.linOf(a).clone()
	x.add(t.linOf(b), -1)
	return x.c == 0 && len(x.v) == 0
}

func (s *State) atomNonNeg(a *Term) bool {
	if a.nonNegInt() {
		return true
	}
	if a.op == OPure && a.name == "·" {
		for _, f := range a.args {
			if !s.atomNonNeg(f) {
				return false
			}
		}
		return true
	}
	if s.sim.AxiomNonNeg != nil && s.sim.AxiomNonNeg(a) {
		return true
	}
	return false
}

// implied constraints (>= 0) of an atom.
func (s *State) atomFacts(a *Term) (out []Lin) {
	T := s.sim.T
	one := Lin{v: map[*Term]int64{a: 1}}
	if s.atomNonNeg(a) {
		out = append(out, one)
	}
	bound := func(lo, hi int64) {
		l := one.clone()
		l.c = -lo
		out = append(out, l)
		h := linConst(hi)
		h.add(one, -1)
		out = append(out, h)
	}
	if a.typ != nil {
		if b, ok := a.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				bound(0, 255)
			case types.Uint16:
				bound(0, 65535)
			case types.Int32:
				bound(-1<<31, 1<<31-1)
			}
		}
	}
	switch a.op {
	case OLen:
		x := a.args[0]
		if x.op == OPure && x.name == "strings.Split" {
			if sep, ok := x.args[1].strVal(); ok && sep != "" {
				l := one.clone()
				l.c = -1
				out = append(out, l)
			}
		}
	case OExtract:
		x := a.args[0]
		if x.op == OPure && x.name == "strconv.ParseInt" && a.idx == 0 {
			if n, ok := x.args[2].intVal(); ok && n > 0 && n < 63 {
				bound(-(1 << uint(n-1)), 1<<uint(n-1)-1)
			}
		}
	case OBin:
		if a.tok == token.SUB && isUnsigned(a.typ) {
			// exact unless it wraps around
			d := T.linOf(a.args[0]).clone()
			d.add(T.linOf(a.args[1]), -1)
			if s.provable(a, d) {
				e := d.clone()
				e.add(one, -1)
				e2 := one.clone()
				e2.add(d, -1)
				out = append(out, e, e2)
			}
		}
		if a.tok == token.REM {
			// 0 <= x % k < k for x >= 0, k > 0
			x, k := T.linOf(a.args[0]), T.linOf(a.args[1])
			kx := k.clone()
			kx.c--
			if k.c > 0 && len(k.v) == 0 || a.args[1].nonNegInt() {
				h := k.clone()
				h.add(one, -1)
				h.c--
				out = append(out, h)
				nn := true
				for at, co := range x.v {
					if co < 0 || !s.atomNonNeg(at) {
						nn = false
					}
				}
				if x.c < 0 {
					nn = false
				}
				if nn || isUnsigned(a.typ) {
					out = append(out, one)
				}
			}
		}
	case OConvert:
		// a conversion to an unsigned type of full width keeps values >= 0
		if x := a.args[0]; isUnsigned(a.typ) && sizeofInt(a.typ) == 8 && isIntType(x.typ) && s.provable(a, T.linOf(x)) {
			e := T.linOf(x).clone()
			e.add(one, -1)
			out = append(out, one, e)
			e2 := one.clone()
			e2.add(T.linOf(x), -1)
			out = append(out, e2)
		} else if !isUnsigned(a.typ) && isIntType(a.typ) && sizeofInt(a.typ) == 8 && isIntType(x.typ) && isUnsigned(x.typ) {
			// back to int: exact for a value below some length
			for f, v := range s.facts {
				if v && f.op == OBin && f.tok == token.LSS && f.args[0] == x && f.args[1].op == OLen {
					e := T.linOf(x).clone()
					e.add(one, -1)
					e2 := one.clone()
					e2.add(T.linOf(x), -1)
					out = append(out, e, e2)
					break
				}
			}
		}
	case OPure:
		switch a.name {
		case "strings.Index":
			l := one.clone()
			l.c = 1
			out = append(out, l)
			// index <= len(s)
			h := T.linOf(T.Len(a.args[0])).clone()
			h.add(one, -1)
			out = append(out, h)
		}
	}
	if s.sim.AxiomFacts != nil {
		out = append(out, s.sim.AxiomFacts(s, a)...)
	}
	return out
}

// constraints gathers every known inequality (expr >= 0).
func (s *State) constraints() []Lin {
	T := s.sim.T
	var out []Lin
	type neq struct{ a, b Lin }
	var neqs []neq
	for f, v := range s.facts {
		if v && f.op == OPure && len(f.args) == 2 && (f.name == "strings.HasPrefix" || f.name == "strings.HasSuffix" || f.name == "strings.Contains" || f.name == "bytes.HasPrefix" || f.name == "bytes.HasSuffix") {
			l := T.linOf(T.Len(f.args[0])).clone()
			l.add(T.linOf(T.Len(f.args[1])), -1)
			out = append(out, l)
		}
		if f.op != OBin || (f.tok != token.LSS && f.tok != token.EQL) || !isIntTermPair(f.args[0], f.args[1]) {
			continue
		}
		a, b := T.linOf(f.args[0]), T.linOf(f.args[1])
		switch {
		case f.tok == token.LSS && v:
			l := b.clone()
			l.add(a, -1)
			l.c--
			out = append(out, l)
		case f.tok == token.LSS && !v:
			l := a.clone()
			l.add(b, -1)
			out = append(out, l)
		case f.tok == token.EQL && v:
			l := a.clone()
			l.add(b, -1)
			out = append(out, l)
			m := b.clone()
			m.add(a, -1)
			out = append(out, m)
		case f.tok == token.EQL && !v:
			neqs = append(neqs, neq{a, b})
		}
	}
	base := len(out)
	var single []neq
	for _, n := range neqs {
		d := n.a.clone()
		d.add(n.b, -1)
		if len(d.v) == 1 {
			single = append(single, n)
		}
	}
	for i := 0; i < 2 && len(single) > 1; i++ {
		// one exclusion can make the next one a bound
		neqs = append(neqs, single...)
	}
	for _, n := range neqs {
		// x != c with x >= c: x >= c+1 (single atom against a constant)
		d := n.a.clone()
		d.add(n.b, -1)
		if len(d.v) > 1 {
			e := linConst(0)
			e.add(d, -1)
			if s.entailsFrom(out[:base:base], d) {
				d1 := d.clone()
				d1.c--
				out = append(out, d1)
			} else if s.entailsFrom(out[:base:base], e) {
				e.c--
				out = append(out, e)
			}
			continue
		}
		if len(d.v) == 1 {
			for at, k := range d.v {
				if k == -1 {
					e := linConst(0)
					e.add(d, -1)
					d = e
					k = 1
				}
				if k == 1 {
					// at + c != 0 ; if at >= -c known implicitly
					if s.atomNonNeg(at) && d.c == 0 {
						l := Lin{c: -1, v: map[*Term]int64{at: 1}}
						out = append(out, l)
					} else {
						// explicit bound among constraints
						for _, o := range append(out[:len(out):len(out)], s.atomFacts(at)...) {
							if len(o.v) == 1 && o.v[at] == 1 && o.c == d.c {
								out = append(out, Lin{c: d.c - 1, v: map[*Term]int64{at: 1}})
								break
							}
							if len(o.v) == 1 && o.v[at] == -1 && o.c == -d.c {
								out = append(out, Lin{c: -d.c - 1, v: map[*Term]int64{at: -1}})
								break
							}
						}
					}
				}
			}
		}
	}
	return out
}

// Entails proves goal >= 0 from the facts by eliminating variables
// (Fourier-Motzkin over the cone of influence of the goal).
func (s *State) Entails(goal Lin) bool {
	if len(goal.v) == 0 {
		return goal.c >= 0
	}
	m := s.sim
	fp := s.factPrint()
	key := entKey{fp, linKey(goal)}
	nested := len(m.proving) > 0
	if r, ok := m.entMemo[key]; ok && !nested {
		return r
	}
	cs, ok := m.consMemo[fp]
	if !ok {
		if len(m.consMemo) > 20000 {
			m.consMemo = map[uint64][]Lin{}
		}
		cs = s.constraints()
		if !nested {
			m.consMemo[fp] = cs
		}
	}
	r := s.entailsFrom(cs, goal)
	if nested {
		return r // decided without some of the facts
	}
	if len(m.entMemo) > 400000 {
		m.entMemo = map[entKey]bool{}
	}
	m.entMemo[key] = r
	return r
}

type entKey struct {
	fp   uint64
	goal string
}

// factPrint fingerprints the current fact set (order independent).
func (s *State) factPrint() uint64 {
	var h uint64
	for f, v := range s.facts {
		x := uint64(f.id)*2 + 1
		if v {
			x++
		}
		x ^= x >> 31
		x *= 0x9E3779B97F4A7C15
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
		h += x
	}
	return h
}

func (s *State) entailsFrom(cs0 []Lin, goal Lin) bool {
	if len(goal.v) == 0 {
		return goal.c >= 0
	}
	cs := append([]Lin(nil), cs0...)
	neg := linConst(-1)
	neg.add(goal, -1)
	if hasMono(neg) || anyMono(cs) {
		eq := s.unitEqualities(cs)
		if len(eq) > 0 {
			neg = s.sim.T.substMono(neg, eq)
			for i := range cs {
				cs[i] = s.sim.T.substMono(cs[i], eq)
			}
		}
	}
	if len(neg.v) == 0 {
		return neg.c < 0
	}
	vars := map[*Term]bool{}
	for a := range neg.v {
		vars[a] = true
	}
	sys := []Lin{neg}
	used := make([]bool, len(cs))
	implied := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := false
			for a := range c.v {
				if vars[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				sys = append(sys, c)
				for a := range c.v {
					vars[a] = true
				}
			}
		}
		for a := range vars {
			if !implied[a] {
				implied[a] = true
				for _, l := range s.atomFacts(a) {
					sys = append(sys, l)
					for b := range l.v {
						vars[b] = true
					}
					changed = true
				}
			}
		}
	}
	return infeasible(append(sys, s.scaled(sys, vars)...))
}

// scaled multiplies plain constraints by factors that cannot be negative, when
// only products that are talked about anyway come out of it: from i < n follows
// i*u + u <= n*u.
func (s *State) scaled(sys []Lin, vars map[*Term]bool) []Lin {
	monos := map[*Term]bool{}
	var us []*Term
	seen := map[*Term]bool{}
	for a := range vars {
		if a.op == OPure && a.name == "·" && len(a.args) == 2 {
			monos[a] = true
			for _, f := range a.args {
				if !seen[f] && s.atomNonNeg(f) {
					seen[f] = true
					us = append(us, f)
				}
			}
		}
	}
	if len(monos) == 0 || len(us) > 12 {
		return nil
	}
	sort.Slice(us, func(i, j int) bool { return us[i].id < us[j].id })
	var out []Lin
	done := map[string]bool{}
	for _, c := range sys {
		if k := linKey(c); done[k] {
			continue
		} else {
			done[k] = true
		}
		if n := len(c.v); n == 0 || n > 3 || c.c > 64 || c.c < -64 || hasMono(c) {
			continue
		}
		for _, u := range us {
			if c.v[u] != 0 {
				continue
			}
			ok := true
			for a := range c.v {
				ok = ok && monos[s.sim.T.mono(a, u)]
			}
			if ok && len(out) < 200 {
				out = append(out, s.sim.T.linMul(c, Lin{v: map[*Term]int64{u: 1}}))
			}
		}
	}
	return out
}

func hasMono(l Lin) bool {
	for a := range l.v {
		if a.op == OPure && a.name == "·" {
			return true
		}
	}
	return false
}

func anyMono(cs []Lin) bool {
	for _, c := range cs {
		if hasMono(c) {
			return true
		}
	}
	return false
}

// unitEqualities finds a == L (a an atom with unit coefficient) among pairs of
// opposite constraints.
func (s *State) unitEqualities(cs []Lin) map[*Term]Lin {
	keys := map[string]Lin{}
	for _, c := range cs {
		if len(c.v) <= 3 && !hasMono(c) {
			keys[linKey(normLin(c))] = c
		}
	}
	out := map[*Term]Lin{}
	used := map[*Term]bool{}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := keys[k]
		n := linConst(0)
		n.add(c, -1)
		if _, ok := keys[linKey(normLin(n))]; !ok {
			continue
		}
		// pick the youngest unit atom
		var best *Term
		for a, co := range c.v {
			if (co == 1 || co == -1) && (best == nil || a.id > best.id) && !used[a] {
				best = a
			}
		}
		if best == nil {
			continue
		}
		if _, ok := out[best]; ok {
			continue
		}
		l := linConst(0)
		l.add(c, -c.v[best])
		delete(l.v, best)
		bad := false
		for a := range l.v {
			if _, ok := out[a]; ok {
				bad = true
			}
		}
		if bad {
			continue
		}
		for a := range l.v {
			used[a] = true
		}
		out[best] = l
	}
	return out
}

// substMono replaces atoms inside products (and alone) by equal linear forms.
func (t *Terms) substMono(l Lin, eq map[*Term]Lin) Lin {
	r := linConst(l.c)
	for a, k := range l.v {
		if a.op == OPure && a.name == "·" {
			p := linConst(1)
			for _, f := range a.args {
				if e, ok := eq[f]; ok {
					p = t.linMul(p, e)
				} else {
					p = t.linMul(p, Lin{v: map[*Term]int64{f: 1}})
				}
			}
			r.add(p, k)
			continue
		}
		if e, ok := eq[a]; ok {
			r.add(e, k)
			continue
		}
		r.add(Lin{v: map[*Term]int64{a: 1}}, k)
	}
	return r
}

func infeasible(sys []Lin) bool {
	for round := 0; round < 40; round++ {
		// normalise, find contradictions
		var cur []Lin
		seen := map[string]bool{}
		for _, l := range sys {
			if len(l.v) == 0 {
				if l.c < 0 {
					return true
				}
				continue
			}
			l = normLin(l)
			k := linKey(l)
			if !seen[k] {
				seen[k] = true
				cur = append(cur, l)
			}
		}
		if len(cur) == 0 {
			return false
		}
		// choose variable with least product
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, l := range cur {
			for a, k := range l.v {
				if k > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var best *Term
		bc := 1 << 30
		for _, l := range cur {
			for a := range l.v {
				c := pos[a] * neg[a]
				if c < bc || c == bc && best != nil && a.id < best.id {
					bc, best = c, a
				}
			}
		}
		if len(cur) > 600 || bc > 3000 {
			return false
		}
		var next []Lin
		var ps, ns []Lin
		for _, l := range cur {
			k := l.v[best]
			switch {
			case k > 0:
				ps = append(ps, l)
			case k < 0:
				ns = append(ns, l)
			default:
				next = append(next, l)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.v[best], -n.v[best]
				if kp > 1<<20 || kn > 1<<20 {
					continue
				}
				r := linConst(0)
				r.add(p, kn)
				r.add(n, kp)
				delete(r.v, best)
				next = append(next, r)
			}
		}
		sys = next
	}
	return false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func normLin(l Lin) Lin {
	var g int64
	for _, k := range l.v {
		g = gcd(g, k)
	}
	if g <= 1 {
		return l
	}
	n := Lin{v: map[*Term]int64{}}
	for a, k := range l.v {
		n.v[a] = k / g
	}
	// floor division (integer tightening)
	n.c = l.c / g
	if l.c%g != 0 && l.c < 0 {
		n.c--
	}
	return n
}

func linKey(l Lin) string {
	ks := make([]*Term, 0, len(l.v))
	for a := range l.v {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	out := make([]byte, 0, 16+12*len(ks))
	out = strconv.AppendInt(out, l.c, 10)
	for _, a := range ks {
		out = append(out, ';')
		out = strconv.AppendInt(out, int64(a.id), 10)
		out = append(out, '*')
		out = strconv.AppendInt(out, l.v[a], 10)
	}
	return string(out)
}

// provable decides goal >= 0 while the facts of atom a are being gathered.
func (s *State) provable(a *Term, goal Lin) bool {
	m := s.sim
	if m.proving[a] || len(m.proving) > 3 {
		return false
	}
	if m.proving == nil {
		m.proving = map[*Term]bool{}
	}
	m.proving[a] = true
	defer delete(m.proving, a)
	return s.Entails(goal)
}

// ProveLE proves a <= b.
func (s *State) ProveLE(a, b *Term) bool {
	g := s.sim.T.linOf(b).clone()
	g.add(s.sim.T.linOf(a), -1)
	return s.Entails(g)
}

// ProveLT proves a < b.
func (s *State) ProveLT(a, b *Term) bool {
	g := s.sim.T.linOf(b).clone()
	g.add(s.sim.T.linOf(a), -1)
	g.c--
	return s.Entails(g)
}

func (s *State) linDecide(c *Term) (bool, bool) {
	a, b := c.args[0], c.args[1]
	switch c.tok {
	case token.LSS:
		if s.ProveLT(a, b) {
			return true, true
		}
		if s.ProveLE(b, a) {
			return false, true
		}
	case token.EQL:
		if s.ProveLT(a, b) || s.ProveLT(b, a) {
			return false, true
		}
		if s.ProveLE(a, b) && s.ProveLE(b, a) {
			return true, true
		}
	}
	return false, false
}

// ---- loop invariants by candidate elimination ----

type houdini struct {
	dropped map[string]bool
	affine  map[string]Lin // "q|i" -> per-iteration change of q relative to i
}

type quantity struct {
	key string
	ph  *ssa.Phi
	val func(s *State) *Term
}

// quantities tracked at a loop header: integer phis, lengths of slice/string
// phis, and the same for local memory cells.
func (m *Sim) quantities(s *State, h *ssa.BasicBlock, phis []*ssa.Phi) []quantity {
	var out []quantity
	for _, ph := range phis {
		ph := ph
		T := ph.Type()
		switch {
		case isIntType(T):
			out = append(out, quantity{fmt.Sprintf("p%d", m.T.objID(ph)), ph, func(s *State) *Term { return s.top().env[ph] }})
		case isSliceOrString(T):
			out = append(out, quantity{fmt.Sprintf("l%d", m.T.objID(ph)), ph, func(s *State) *Term {
				if v := s.top().env[ph]; v != nil && v != m.T.None {
					return m.T.Len(v)
				}
				return nil
			}})
		}
	}
	var cells []*Term
	mod := m.loopStores(h)
	for a := range s.mem {
		if ro := addrRoot(a).op; ro != OAllocAddr && ro != OParam {
			continue
		}
		T := deref(a.typ)
		if a.op == OIndexAddr || !mod[cellKey(a)] && !isGhost(a) {
			continue
		}
		if isIntType(T) || isSliceOrString(T) {
			cells = append(cells, a)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	if len(cells) > 14 {
		cells = cells[:14]
	}
	for _, a := range cells {
		a := a
		if isIntType(deref(a.typ)) {
			out = append(out, quantity{fmt.Sprintf("m%d", a.id), nil, func(s *State) *Term { return s.mem[a] }})
		} else {
			out = append(out, quantity{fmt.Sprintf("n%d", a.id), nil, func(s *State) *Term {
				if v, ok := s.mem[a]; ok && v != m.T.None {
					return m.T.Len(v)
				}
				return nil
			}})
		}
	}
	return out
}

// loopStores names the memory the loop headed by h may write.
func (m *Sim) loopStores(h *ssa.BasicBlock) map[string]bool {
	if r, ok := m.loopMod[h]; ok {
		return r
	}
	r := map[string]bool{}
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				for _, k := range storeKeys(x.Addr, x.Val.Type()) {
					r[k] = true
				}
			case ssa.CallInstruction:
				for _, f := range m.P.callTargets(x) {
					if m.P.inModule[f] {
						for k := range m.P.funcEffects(f).stores {
							r[k] = true
						}
					}
				}
			}
		}
	}
	m.loopMod[h] = r
	return r
}

// loopBody is the natural loop of header h.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var st []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			st = append(st, p)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if body[b] {
			continue
		}
		body[b] = true
		st = append(st, b.Preds...)
	}
	return body
}

func isSliceOrString(T types.Type) bool {
	if isStringType(T) {
		return true
	}
	_, ok := T.Underlying().(*types.Slice)
	return ok
}

func (m *Sim) houFor(ctx *Ctx, h *ssa.BasicBlock) (*houdini, string) {
	k := fmt.Sprintf("%d/%d/%d", ctx.id, m.T.objID(h.Parent()), h.Index)
	hh := m.hou[k]
	if hh == nil {
		hh = &houdini{dropped: map[string]bool{}, affine: map[string]Lin{}}
		m.hou[k] = hh
	}
	return hh, k
}

type houCand struct {
	key  string
	goal []Lin // each >= 0
}

// condCands derives candidates from the loop condition `a OP x`.
func (m *Sim) condCands(s *State, h *ssa.BasicBlock, phi func(*ssa.Phi) *Term) []houCand {
	var out []houCand
	for _, b := range m.loopConds(h) {
		for _, c := range m.condCandsOf(s, h, b, phi) {
			if b != h {
				c.key = fmt.Sprintf("%s:b%d", c.key, b.Index)
			}
			out = append(out, c)
		}
	}
	return out
}

// loopConds are the blocks of a loop that end in the comparison of integers,
// the header first, other ways out of the loop after it.
func (m *Sim) loopConds(h *ssa.BasicBlock) []*ssa.BasicBlock {
	if r, ok := m.condBlocks[h]; ok {
		return r
	}
	var r []*ssa.BasicBlock
	body := loopBody(h)
	for b := range body {
		if len(b.Instrs) == 0 {
			continue
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok && c.Block() == b && isIntType(c.X.Type()) && (b == h || !body[b.Succs[0]] || !body[b.Succs[1]]) {
				r = append(r, b)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return (r[i] == h) && r[j] != h || (r[j] != h && r[i].Index < r[j].Index) })
	if len(r) > 4 {
		r = r[:4]
	}
	if m.condBlocks == nil {
		m.condBlocks = map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	}
	m.condBlocks[h] = r
	return r
}

func (m *Sim) condCandsOf(s *State, h, at *ssa.BasicBlock, phi func(*ssa.Phi) *Term) []houCand {
	c := at.Instrs[len(at.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
	usesPhi := false
	body := loopBody(h)
	var ev func(v ssa.Value, d int) *Term
	ev = func(v ssa.Value, d int) *Term {
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			switch x := v.(type) {
			case *ssa.Phi:
				if x.Block() != h {
					return nil
				}
				usesPhi = true
				return phi(x)
			case *ssa.BinOp:
				if d > 3 {
					return nil
				}
				a, b := ev(x.X, d+1), ev(x.Y, d+1)
				if a == nil || b == nil {
					return nil
				}
				return m.T.Bin(x.Op, a, b, x.Type())
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
					a := ev(x.Common().Args[0], d+1)
					if a == nil {
						return nil
					}
					return m.T.Len(a)
				}
			case *ssa.Convert:
				a := ev(x.X, d+1)
				if a == nil {
					return nil
				}
				return m.convert(a, x.X.Type(), x.Type())
			case *ssa.FieldAddr:
				a := ev(x.X, d+1)
				if a == nil || a == m.T.None || a.op == ONil || d > 6 {
					return nil
				}
				return m.T.FieldAddr(a, x.Field, deref(x.X.Type()), x.Type())
			case *ssa.UnOp:
				// what is read in every round, as it is when the round starts
				if x.Op != token.MUL {
					return nil
				}
				a := ev(x.X, d+1)
				if a == nil || a == m.T.None || d > 6 {
					return nil
				}
				return s.Load(a, x.Type())
			}
			return nil
		}
		return s.val(v)
	}
	a, x := ev(c.X, 0), ev(c.Y, 0)
	if a == nil || x == nil || a == m.T.None || x == m.T.None || !usesPhi {
		return nil
	}
	d := m.T.linOf(x).clone()
	d.add(m.T.linOf(a), -1)
	e := linConst(0)
	e.add(d, -1)
	e1 := e.clone()
	e1.c++
	d1 := d.clone()
	d1.c++
	return []houCand{{"cond:le", []Lin{d}}, {"cond:ge", []Lin{e}}, {"cond:ge1", []Lin{e1}}, {"cond:le1", []Lin{d1}}}
}

func (m *Sim) dropCand(hh *houdini, key string) {
	hh.dropped[key] = true
	m.restart = true
	m.houDropped++
}

func (m *Sim) houdiniEntry(s *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) {
	hh, k := m.houFor(s.top().ctx, h)
	for key := range s.cl {
		if len(key) > 4+len(k) && key[:4+len(k)+1] == "hou:"+k+":" {
			delete(s.cl, key)
		}
	}
	qs := m.quantities(s, h, phis)
	for _, q := range qs {
		if v := q.val(s); v != nil && v != m.T.None {
			s.cl["hou:"+k+":"+q.key] = v
			s.cl["hou:"+k+":hdr:"+q.key] = v
		}
	}
	// candidates that must already hold on entry
	cs := m.houCands(s, hh, k, qs, func(q quantity) *Term { return q.val(s) })
	cs = append(cs, m.condCands(s, h, func(p *ssa.Phi) *Term { return s.top().env[p] })...)
	for _, c := range cs {
		if hh.dropped[c.key] {
			continue
		}
		for _, g := range c.goal {
			if !s.Entails(g) {
				if m.houUsed[k] {
					m.dropCand(hh, c.key)
				} else {
					hh.dropped[c.key] = true
				}
				break
			}
		}
	}
}

func (m *Sim) houCands(s *State, hh *houdini, k string, qs []quantity, cur func(quantity) *Term) []houCand {
	T := m.T
	var out []houCand
	var have []quantity
	var ent, now []Lin
	for _, q := range qs {
		e := s.cl["hou:"+k+":"+q.key]
		v := cur(q)
		if e == nil || v == nil || v == T.None || e == T.None {
			continue
		}
		have = append(have, q)
		ent = append(ent, T.linOf(e))
		now = append(now, T.linOf(v))
	}
	neg := func(l Lin) Lin {
		e := linConst(0)
		e.add(l, -1)
		return e
	}
	sub := func(a, b Lin) Lin {
		d := a.clone()
		d.add(b, -1)
		return d
	}
	for i, q := range have {
		d := sub(now[i], ent[i])
		out = append(out, houCand{"ge:" + q.key, []Lin{d}}, houCand{"le:" + q.key, []Lin{neg(d)}}, houCand{"nn:" + q.key, []Lin{now[i]}})
		for j := range have {
			if i == j {
				continue
			}
			if a, ok := hh.affine[q.key+"|"+have[j].key]; ok {
				x := sub(d, T.linMul(a, sub(now[j], ent[j])))
				out = append(out, houCand{"af:" + q.key + ":" + have[j].key, []Lin{x, neg(x)}})
			}
			x := sub(now[j], now[i])
			x1 := x.clone()
			x1.c--
			out = append(out, houCand{"lt:" + q.key + ":" + have[j].key, []Lin{x1}}, houCand{"lq:" + q.key + ":" + have[j].key, []Lin{x}})
			if j < i {
				continue
			}
			d2 := sub(now[j], ent[j])
			y := sub(d, d2)
			out = append(out, houCand{"df:" + q.key + ":" + have[j].key, []Lin{y, neg(y)}})
			z := d.clone()
			z.add(d2, 1)
			out = append(out, houCand{"sm:" + q.key + ":" + have[j].key, []Lin{z, neg(z)}})
		}
	}
	return out
}

func (m *Sim) houdiniBack(s *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) {
	hh, k := m.houFor(s.top().ctx, h)
	idx := map[string]*Term{}
	pv := map[*ssa.Phi]*Term{}
	for i, ph := range phis {
		pv[ph] = vals[i]
		idx[fmt.Sprintf("p%d", m.T.objID(ph))] = vals[i]
		if isSliceOrString(ph.Type()) {
			idx[fmt.Sprintf("l%d", m.T.objID(ph))] = m.T.Len(vals[i])
		}
	}
	qs := m.quantities(s, h, phis)
	get := func(q quantity) *Term {
		if v, ok := idx[q.key]; ok {
			return v
		}
		return q.val(s)
	}
	// propose affine relations between a quantity and a unit counter
	for _, i := range qs {
		if i.ph == nil || !isIntType(i.ph.Type()) {
			continue
		}
		hv, bv := s.cl["hou:"+k+":hdr:"+i.key], get(i)
		if hv == nil || bv == nil {
			continue
		}
		di := m.T.linOf(bv).clone()
		di.add(m.T.linOf(hv), -1)
		if len(di.v) != 0 || di.c != 1 {
			continue
		}
		for _, q := range qs {
			if q.key == i.key {
				continue
			}
			key := q.key + "|" + i.key
			if _, ok := hh.affine[key]; ok {
				continue
			}
			qh, qb := s.cl["hou:"+k+":hdr:"+q.key], get(q)
			if qh == nil || qb == nil || qh == m.T.None {
				continue
			}
			d := m.T.linOf(qb).clone()
			d.add(m.T.linOf(qh), -1)
			if len(d.v) == 0 {
				continue // constant steps are covered by df/sm
			}
			inv := true
			for a := range d.v {
				if len(a.leafs) > 0 {
					inv = false
				}
			}
			if inv {
				hh.affine[key] = d
			}
		}
	}
	cs := m.houCands(s, hh, k, qs, get)
	cs = append(cs, m.condCands(s, h, func(p *ssa.Phi) *Term { return pv[p] })...)
	for _, c := range cs {
		if hh.dropped[c.key] {
			continue
		}
		for _, g := range c.goal {
			if !s.Entails(g) {
				if debugHou {
					fmt.Printf("hou drop %s %s: %s\n", k, c.key, m.T.linTerm(g))
				}
				m.dropCand(hh, c.key)
				break
			}
		}
	}
	m.houUsed[k] = true
}

var debugHou = os.Getenv("BPCHECK_DEBUG") == "hou"

func (m *Sim) houdiniAssume(s *State, h *ssa.BasicBlock, phis []*ssa.Phi) {
	hh, k := m.houFor(s.top().ctx, h)
	T := m.T
	qs := m.quantities(s, h, phis)
	for _, q := range qs {
		if v := q.val(s); v != nil && v != m.T.None {
			s.cl["hou:"+k+":hdr:"+q.key] = v
		}
	}
	cs := m.houCands(s, hh, k, qs, func(q quantity) *Term { return q.val(s) })
	cs = append(cs, m.condCands(s, h, func(p *ssa.Phi) *Term { return s.top().env[p] })...)
	for _, c := range cs {
		if hh.dropped[c.key] {
			continue
		}
		for _, g := range c.goal {
			if len(g.v) == 0 {
				continue
			}
			s.facts[T.mk(&Term{op: OBin, tok: token.LSS, args: []*Term{T.linTerm(g), T.Zero}, typ: types.Typ[types.Bool]})] = false
		}
	}
}

// linTerm rebuilds a term from a linear form.
func (t *Terms) linTerm(l Lin) *Term {
	it := types.Typ[types.Int]
	ks := make([]*Term, 0, len(l.v))
	for a := range l.v {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var r *Term
	for _, a := range ks {
		x := a
		if a.op == OPure && a.name == "·" {
			x = a.args[0]
			for _, f := range a.args[1:] {
				x = t.Bin(token.MUL, x, f, it)
			}
		}
		k := l.v[a]
		if k != 1 {
			x = t.Bin(token.MUL, t.Int(k), x, it)
		}
		if r == nil {
			r = x
		} else {
			r = t.Bin(token.ADD, r, x, it)
		}
	}
	if r == nil {
		return t.Int(l.c)
	}
	if l.c != 0 {
		r = t.Bin(token.ADD, r, t.Int(l.c), it)
	}
	return r
}
