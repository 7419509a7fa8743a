package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C25", Title: "no input makes the program crash", Run: runC25,
		Explanation: "Every function of the program outside crypt and pkcs7 (C03 has those) is executed abstractly for any arguments and any results of the calls it makes; every slice, index, make and divide must be proven in range, everything that comes with an error may be used only once the error is known to be nil, no type is asserted without a way out, and every panic of the program's own must be behind a condition that the paths to it exclude."})
}

func runC25(r *Run) {
	r.Rule("bounds: every index, slice, make and divide is proven in range on every path, for any argument, entry, file, prompt or remote input")
	r.Rule("deref: a pointer or interface that came with an error is used only where the error is known to be nil")
	r.Rule("assert: types are asserted with a way out")
	r.Rule("panic: a panic raised by the program itself is recovered, or its precondition holds at every call")
	r.Rule("size: what is relied on about the size of a result is proven where it is returned")
	p := r.P
	ownPanics(r)
	sizePromises(r)
	// closures are judged on their own first; what cannot be shown that way is
	// judged again where they are called
	var todo []*ssa.Function
	inline := map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		switch pkgOf(f) {
		case "crypt", "pkcs7", "osutil":
			continue
		}
		if f.Blocks == nil || f.Name() == "init" {
			continue
		}
		if localClosure(p, f) {
			q := newRun(r.ID, r.Tier, p)
			crashes(q, f, inline, true)
			if inline[f] = len(q.viol) > 0; !inline[f] {
				r.take(q)
			}
			continue
		}
		todo = append(todo, f)
	}
	// callees first: what holds in a helper only because of how it is called is
	// judged in its callers
	depth := map[*ssa.Function]int{}
	for _, f := range calleesFirst(p, todo) {
		d := 0
		for g := range p.reach(f) {
			if g != f && inline[g] && depth[g] > d {
				d = depth[g]
			}
		}
		// remembering less is quicker and usually enough
		q := newRun(r.ID, r.Tier, p)
		if crashes(q, f, inline, false); len(q.viol) > 0 {
			q = newRun(r.ID, r.Tier, p)
			crashes(q, f, inline, true)
		}
		if len(q.viol) > 0 && q.viol["budget|"+fnName(f)] == nil {
			// what helpers return may be needed to show it
			wide := helpersOf(p, f)
			if len(wide) > 0 {
				for g := range inline {
					wide[g] = true
				}
				if w := newRun(r.ID, r.Tier, p); true {
					if crashes(w, f, wide, true); len(w.viol) < len(q.viol) {
						q = w
					}
				}
			}
		}
		if len(q.viol) > 0 && d < 3 && len(f.Blocks) <= 40 && q.viol["budget|"+fnName(f)] == nil && onlyCalled(p, f) {
			inline[f], depth[f] = true, d+1
			continue
		}
		r.take(q)
		for k, v := range q.viol {
			r.viol[k] = v
		}
	}
	r.Need("bounds", 40)
	r.Need("deref", 10)
	r.Need("panic", 10)
	r.Need("size", 3)
}

// helpersOf are the functions without loops that f calls and that have nothing
// else to do.
func helpersOf(p *Prog, f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || out[g] || !p.inModule[g] || len(g.Blocks) == 0 || len(g.Blocks) > 25 || !onlyCalled(p, g) || loops(g) {
					continue
				}
				out[g] = true
				if d < 2 {
					walk(g, d+1)
				}
			}
		}
	}
	walk(f, 1)
	return out
}

func loops(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// calleesFirst orders functions so that a function comes after what it calls.
func calleesFirst(p *Prog, fs []*ssa.Function) (out []*ssa.Function) {
	in, done := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range fs {
		in[f] = true
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if done[f] || f.Blocks == nil {
			return
		}
		done[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					for _, t := range p.callTargets(c) {
						if p.inModule[t] {
							visit(t)
						}
					}
				}
			}
		}
		if in[f] {
			out = append(out, f)
		}
	}
	for _, f := range fs {
		visit(f)
	}
	return out
}

// onlyCalled: every use of f is a call from elsewhere in the program.
func onlyCalled(p *Prog, f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || f.Name() == "main" || f.Object().Exported() && pkgOf(f) != "main" {
		return false
	}
	calls := p.inEdges(f)
	for _, c := range calls {
		if c.Common().StaticCallee() != f || c.Parent() == f {
			return false
		}
		if _, ok := c.(*ssa.Call); !ok {
			return false
		}
		for _, a := range c.Common().Args {
			if a == f {
				return false
			}
		}
	}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				c, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if *op == f && !(isCall && c.Common().Value == f) {
						return false
					}
				}
			}
		}
	}
	// not recursive
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, t := range p.callTargets(c) {
					if p.reach(t)[f] {
						return false
					}
				}
			}
		}
	}
	return len(calls) > 0
}

// localClosure: f is only ever called by the function it is written in.
func localClosure(p *Prog, f *ssa.Function) bool {
	if f.Parent() == nil || f.Parent().Name() == "init" {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if mc, ok := v.(*ssa.MakeClosure); ok && mc.Fn != f || !ok && v != f {
					continue
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				if !ok || c.Common().Value != v {
					return false
				}
				for _, a := range c.Common().Args {
					if a == v {
						return false
					}
				}
			}
		}
	}
	return true
}

// take adds what another run established.
func (r *Run) take(q *Run) {
	for rule, is := range q.obl {
		for i := range is {
			r.Oblige(rule, i)
		}
	}
	for k, n := range q.counts {
		r.Count(k, n)
	}
	for f := range q.fns {
		r.fns[f] = true
	}
}

func smallHelper(f *ssa.Function) bool {
	if len(f.Blocks) > 4 || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				return false
			}
		}
	}
	return true
}

func crashes(r *Run, root *ssa.Function, inline map[*ssa.Function]bool, full bool) {
	p := r.P
	b := &bounds{r: r, rule: "bounds", leafs: map[string]*leafTaint{}}
	b.all, b.tainted = true, func(t *Term) bool { return true }
	b.assume = assumed
	c := b.client()
	c.KeepFacts = full
	c.Inline = func(f *ssa.Function) (bool, bool) {
		if !p.inModule[f] {
			return false, true
		}
		if f.Parent() != nil || inline[f] {
			return inline[f], true
		}
		return pkgOf(f) == pkgOf(root) && smallHelper(f) || pkgOf(f) != "main" && smallHelper(f) && f.Signature.Recv() == nil, true
	}
	c.Track = func(n string) bool {
		return strings.HasPrefix(n, "unicode/utf8.") || strings.HasPrefix(n, "crypto/rand.") || strings.HasPrefix(n, "(*math/big") || strings.HasPrefix(n, "math/big") || strings.HasSuffix(n, ").Read") || strings.HasSuffix(n, ").UUIDs") || strings.HasSuffix(n, ".SetHelpTemplate") || strings.HasSuffix(n, "getMenuChoice")
	}
	c.WeakStore = func(a *Term) bool {
		return a.op == OIndexAddr || a.op == OAllocAddr && a.typ != nil && isIntType(deref(a.typ))
	}
	c.Facts = func(f *Term) bool {
		if f.op != OBin {
			return f.op == OPure || f.op == OCall
		}
		if !full && f.tok == token.LSS && !f.any(func(y *Term) bool { return y.op == OLen }) {
			return false
		}
		for _, x := range f.args {
			if x.op == ONil || x.typ != nil && isIntType(x.typ) || isStr(x, "") {
				return true
			}
		}
		return false
	}
	m := newSim(p, c)
	if !full {
		m.Budget = 100000
	}
	m.AxiomFacts = func(s *State, a *Term) []Lin { return sizeFacts(s, a) }
	c.OnResult = func(ev *CallEv, _ *Term) {
		if ev.Name != "encoding/json.Unmarshal" && ev.Name != "(*encoding/json.Decoder).Decode" || len(ev.Args) != 2 {
			return
		}
		a := ev.Args[1]

		for a.op == OIface {
			a = a.args[0]
		}
		if a.typ != nil {
			if pt, ok := a.typ.Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Pointer); ok {
					x := ev.S.Load(a, pt.Elem())
					ev.S.cl["null:"+strconv.Itoa(x.id)] = x
				}
			}
		}
	}
	prev := c.OnInstr
	deref := func(s *State, in ssa.Instruction, v ssa.Value) {
		if v == nil {
			return
		}
		x := s.val(v)
		switch v.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			r.Count("dereferences", 1)
			if x.op == ONil || s.IsNil(x) {
				r.Oblige("deref", fnName(in.Parent())+" "+p.instrPos(in))
				r.Violate("deref", fnName(in.Parent())+"|nil", p.instrPos(in), "what is used here is known to be nil", s.Trail(8))
			}
		}
		if s.cl["null:"+strconv.Itoa(x.id)] != nil {
			r.Oblige("deref", fnName(in.Parent())+" "+p.instrPos(in))
			if !s.NonNil(x) {
				r.Violate("deref", fnName(in.Parent())+"|null", p.instrPos(in), "what was read from json is used although null makes it a nil pointer", s.Trail(8))
			}
			return
		}
		if x.op != OExtract || x.args[0].op != OCall && x.args[0].op != OPure {
			return
		}
		call := x.args[0]
		tup, ok := call.typ.(*types.Tuple)
		if !ok || tup.Len() < 2 || x.idx == tup.Len()-1 || tup.At(tup.Len()-1).Type().String() != "error" {
			return
		}
		switch x.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			return
		}
		r.Oblige("deref", fnName(in.Parent())+" "+p.instrPos(in))
		e := errOf(m.T, call, tup.Len()-1)
		if s.IsNil(e) || s.NonNil(x) {
			return
		}
		r.Violate("deref", fnName(in.Parent())+"|"+call.name, p.instrPos(in), "what "+call.name+" returned is used although it may have failed and returned nothing", s.Trail(8))
	}
	// a loop over a map has at most as many rounds as the map has keys
	round := func(rg *ssa.Range) string { return "rng:" + strconv.Itoa(int(rg.Pos())) + fnName(rg.Parent()) }
	c.OnBranch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		iff, ok := in.(*ssa.If)
		if !ok || !taken {
			return
		}
		ex, ok := iff.Cond.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok || nx.IsString {
			return
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			return
		}
		n := s.cl[round(rg)]
		if n == nil {
			return
		}
		g := s.ghostGet(round(rg))
		s.Assume(s.sim.T.Bin(token.LSS, g, n, types.Typ[types.Bool]), true)
		s.ghostSet(round(rg), s.sim.T.addConst(g, 1, intT))
	}
	c.OnInstr = func(s *State, in ssa.Instruction) {
		prev(s, in)
		switch x := in.(type) {
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok && counted(p, x) {
				T := s.sim.T
				s.cl[round(x)] = T.mk(&Term{op: OLen, args: []*Term{s.val(x.X), s.epochOf("map:" + typeKey(x.X.Type().Underlying()))}, typ: types.Typ[types.Int]})
				s.ghostSet(round(x), T.Zero)
			}
		case *ssa.FieldAddr:
			deref(s, in, x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				deref(s, in, x.X)
			}
		case *ssa.MapUpdate:
			r.Oblige("deref", fnName(in.Parent())+" "+p.instrPos(in))
			if y := s.val(x.Map); y.op == ONil || s.IsNil(y) {
				r.Violate("deref", fnName(in.Parent())+"|nilmap", p.instrPos(in), "a map that is nil is written to", s.Trail(8))
			}
		case *ssa.Panic:
			ownPanic(r, s, x)
		case *ssa.TypeAssert:
			r.Oblige("assert", fnName(in.Parent())+" "+p.instrPos(in))
			if !x.CommaOk {
				r.Violate("assert", fnName(in.Parent())+"|"+x.AssertedType.String(), p.instrPos(in), "the type asserted may be another one", s.Trail(8))
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.IsInvoke() {
				deref(s, in, cc.Value)
			} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
				deref(s, in, cc.Args[0])
			}
			if f := cc.StaticCallee(); f != nil && len(cc.Args) > 0 {
				if k, ok := p.mustParam(f); ok && k < len(cc.Args) {
					r.Oblige("panic", fnName(in.Parent())+" "+p.instrPos(in))
					if !existing(p, s, cc.Args[k]) {
						r.Violate("panic", fnName(in.Parent())+"|"+fnName(f), p.instrPos(in), fnName(f)+" panics for an entry that does not exist, and nothing was found or it is not known to have been", s.Trail(8))
					}
				}
			}
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}

// counted: it may matter how many rounds a loop over a map has, and the map
// is not written to in the loop.
func counted(p *Prog, rg *ssa.Range) bool {
	f := rg.Parent()
	var nx *ssa.Next
	for _, ref := range *rg.Referrers() {
		if x, ok := ref.(*ssa.Next); ok {
			nx = x
		}
	}
	if nx == nil {
		return false
	}
	needed, written := false, false
	writes := func(g *ssa.Function, bs map[*ssa.BasicBlock]bool) {
		for _, b := range g.Blocks {
			if bs != nil && !bs[b] {
				continue
			}
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), rg.X.Type()) {
					written = true
				}
			}
		}
	}
	body := loopBody(nx.Block())
	writes(f, body)
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if _, ok := x.Index.(*ssa.Const); !ok {
					needed = true
				}
			case ssa.CallInstruction:
				for _, t := range p.callTargets(x) {
					for g := range p.reach(t) {
						writes(g, nil)
					}
				}
			}
		}
	}
	return needed && !written
}

// mustParam: the parameter of a function that must name something that exists,
// or the function panics; passed on, it is so in the caller too.
func (p *Prog) mustParam(f *ssa.Function) (int, bool) {
	switch fnName(f) {
	case "(blobformat.Blobs).MustFind", "(blobformat.Blobs).MustFindUser":
		return 1, true
	}
	if !p.inModule[f] || pkgOf(f) == "main" && f.Object() == nil {
		return 0, false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee() == f {
				continue
			}
			switch fnName(c.Common().StaticCallee()) {
			case "(blobformat.Blobs).MustFind", "(blobformat.Blobs).MustFindUser":
				if q, ok := c.Common().Args[1].(*ssa.Parameter); ok {
					for i, x := range f.Params {
						if x == q {
							return i, true
						}
					}
				}
			}
		}
	}
	return 0, false
}

// existing: v names an entry: it was found, made or enumerated, or the
// function's caller has to see to it.
func existing(p *Prog, s *State, v ssa.Value) bool {
	T := s.sim.T
	x := s.val(v)
	if s.Known(T.Eq(x, T.Str("")), false) || s.Known(T.Eq(T.Len(x), T.Zero), false) || s.ProveLE(T.One, T.Len(x)) {
		return true
	}
	if x.op == OLoad && x.args[0].op == OIndexAddr && strings.HasSuffix(x.args[0].args[0].name, ".UUIDs") {
		return true // one of those listed
	}
	k := callOf(x)
	if k.op == OCall && x.op == OExtract && (strings.HasPrefix(k.name, "(blobformat.Blobs).New") || strings.HasPrefix(k.name, "(txlogs.DB)") || strings.HasPrefix(k.name, "(*txlogs.DB).")) {
		if tup, ok := k.typ.(*types.Tuple); ok && s.IsNil(errOf(T, k, tup.Len()-1)) {
			return true
		}
	}
	for _, src := range p.sources(v, prov{leaf: func(y ssa.Value) bool {
		switch z := y.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.Extract:
			_, ok := z.Tuple.(*ssa.Next)
			return ok
		}
		return false
	}}) {
		switch z := src.(type) {
		case *ssa.Parameter:
			if k, ok := p.mustParam(z.Parent()); !ok || z.Parent().Params[k] != z {
				return false
			}
		case *ssa.Extract:
			if _, ok := z.Tuple.(*ssa.Next); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sizeFacts are what the library promises about sizes.
func sizeFacts(s *State, a *Term) []Lin {
	T := s.sim.T
	one := Lin{v: map[*Term]int64{a: 1}}
	le := func(x *Term) Lin { // a <= x
		l := T.linOf(x).clone()
		l.add(one, -1)
		return l
	}
	if a.op == OExtract {
		k := a.args[0]
		if k.op == OCall && a.idx == 0 && strings.HasSuffix(k.name, ").Read") && len(k.args) == 2 {
			return []Lin{one, le(T.Len(k.args[1]))}
		}
		if k.op != OCall && k.op != OPure || len(k.args) == 0 {
			return nil
		}
		switch k.name {
		case "range":
			if a.idx == 1 && isIntType(a.typ) {
				l := le(T.Len(k.args[0]))
				if s.Known(T.Extract(k, 0, types.Typ[types.Bool]), true) {
					l.c--
				}
				return []Lin{one, l}
			}
		case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString":
			if a.idx == 1 {
				return []Lin{one, le(T.Len(k.args[0]))}
			}
		}
	}
	if a.op == OLen {
		x := a.args[0]
		if k := callOf(x); k.op == OCall && len(k.args) == 1 && k.name == "(blobformat.SearchResults).UUIDs" {
			// as many as the map has; nothing is added to it in between
			var out []Lin
			for f := range s.facts {
				for _, y := range f.args {
					if y.op == OLen && y.args[0] == k.args[0] {
						h := T.linOf(y).clone()
						h.add(one, -1)
						g := one.clone()
						g.add(T.linOf(y), -1)
						out = append(out, h, g)
					}
				}
			}
			return out
		}
		if k := callOf(x); k.op == OCall && k.typ != nil && s.sim.P.mergeCalls()[strings.TrimSuffix(k.name, "'")] && x.op == OExtract && x.idx == 0 {
			l := one.clone()
			l.c--
			return []Lin{l}
		}
		if f, _ := fieldTerm(x); f == "txlogs.DB.Log" && pkgOf(s.frames[0].fn) == "main" {
			l := one.clone()
			l.c--
			return []Lin{l}
		}
	}
	if a.op == OExtract && a.idx == 0 && a.args[0].op == OCall && strings.HasSuffix(a.args[0].name, ").getMenuChoice") && len(a.args[0].args) > 2 {
		if s.IsNil(errOf(T, a.args[0], 1)) {
			l := le(T.Len(a.args[0].args[2]))
			l.c--
			return []Lin{one, l}
		}
	}
	x := a
	for x.op == OConvert && len(x.args) == 1 {
		x = x.args[0]
	}
	if (x.op == OCall || x.op == OPure) && x.name == "(*math/big.Int).Int64" && len(x.args) == 1 {
		if k, i := resOf(x.args[0], "crypto/rand.Int"); k != nil && i == 0 {
			if n := k.args[1]; (n.op == OCall || n.op == OPure) && n.name == "math/big.NewInt" {
				l := T.linOf(stripConv(n.args[0])).clone()
				l.add(one, -1)
				l.c--
				return []Lin{one, l}
			}
		}
	}
	return nil
}

func stripConv(x *Term) *Term {
	for x.op == OConvert && len(x.args) == 1 && isIntType(x.args[0].typ) {
		x = x.args[0]
	}
	return x
}

// ownPanic: a panic statement that a path reaches.
func ownPanic(r *Run, s *State, x *ssa.Panic) {
	p := r.P
	f := x.Parent()
	r.Oblige("panic", fnName(f)+" "+p.instrPos(x))
	if recovered(p, f, map[*ssa.Function]bool{}) {
		return
	}
	if _, ok := p.mustParam(f); ok {
		return // every call is judged
	}
	if fnName(f) == "(blobformat.Blob).Get" {
		return // judged at every call
	}
	if noneLeft(s) {
		return
	}
	v := s.val(x.X)
	for _, k := range panicReasons {
		if k.text != "" && v.any(func(y *Term) bool { t, ok := y.strVal(); return ok && strings.Contains(t, k.text) }) {
			r.Count("assumed: "+k.why, 1)
			return
		}
		if k.call != "" && v.any(func(y *Term) bool { return (y.op == OCall || y.op == OPure) && strings.HasSuffix(y.name, k.call) }) {
			r.Count("assumed: "+k.why, 1)
			return
		}
	}
	r.Violate("panic", fnName(f), p.instrPos(x), "a path for some input reaches a panic", s.Trail(8))
}

var panicReasons = []struct{ text, call, why string }{
	{"called before", "", "transactions are not nested and are ended only after they were begun (judged at every call)"},
	{"cannot be retrieved with Get", "", "protected keys are not asked for (judged at every call)"},
	{"name was not set", "", "every entry has a name: New sets it and it is protected"},
	{"impossible situation", "", "a delete is resolved one way only (C16)"},
	{"", ".SetHelpTemplate", "the help template is a constant"},
	{"", ").Users", "the snapshot was up to date before: saving reads the log it was made from"},
}

// recovered: every way to f is through a function that recovers.
func recovered(p *Prog, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok && callsBuiltin(g, "recover") {
						return true
					}
				}
				if g := d.Call.StaticCallee(); g != nil && callsBuiltin(g, "recover") {
					return true
				}
			}
		}
	}
	in := p.inEdges(f)
	if len(in) == 0 {
		return false
	}
	for _, e := range in {
		if !recovered(p, e.Parent(), seen) {
			return false
		}
	}
	return true
}

func callsBuiltin(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == name {
					return true
				}
			}
		}
	}
	return false
}

// noneLeft: a number in a known small range equals none of the values in it.
func noneLeft(s *State) bool {
	T := s.sim.T
	for f, v := range s.facts {
		if v || f.op != OBin || f.tok != tokEQL {
			continue
		}
		x := f.args[0]
		if _, ok := x.intVal(); ok {
			x = f.args[1]
		}
		if !isIntType(x.typ) || !s.ProveLE(T.Zero, x) {
			continue
		}
		for hi := int64(0); hi < 16; hi++ {
			if s.ProveLE(x, T.Int(hi)) {
				left := false
				for k := int64(0); k <= hi; k++ {
					left = left || !s.Known(T.Eq(x, T.Int(k)), false)
				}
				if !left {
					return true
				}
				break
			}
		}
	}
	return false
}

// ownPanics judges the calls of functions that panic when they are misused.
func ownPanics(r *Run) {
	p := r.P
	protected := map[string]bool{}
	if f := p.fn("(blobformat.Blob).Get"); f != nil {
		for _, k := range p.stringsOf("blobformat.protectedKeys") {
			protected[k] = true
		}
		for _, e := range p.inEdges(f) {
			r.Oblige("panic", fnName(e.Parent())+" "+p.instrPos(e))
			c, ok := e.Common().Args[1].(*ssa.Const)
			if !ok || c.Value == nil {
				r.Violate("panic", fnName(e.Parent())+"|Get", p.instrPos(e), "a key is read with Get that could be one it panics for", nil)
				continue
			}
			k := strings.Trim(c.Value.ExactString(), `"`)
			for q := range protected {
				if strings.EqualFold(k, q) {
					r.Violate("panic", fnName(e.Parent())+"|Get "+k, p.instrPos(e), "Get panics for "+k, nil)
				}
			}
		}
	}
	begin, do := p.fn("(*txlogs.DB).Begin"), p.fn("(*txlogs.DB).Do")
	if begin == nil || do == nil {
		r.Violate("anchor", "transactions", "-", "Begin and Do were not found", nil)
		return
	}
	for _, n := range []string{"Begin", "Commit", "Rollback"} {
		f := p.fn("(*txlogs.DB)." + n)
		if f == nil {
			continue
		}
		for _, e := range p.inEdges(f) {
			r.Oblige("panic", fnName(e.Parent())+" "+p.instrPos(e))
			if e.Parent() != do && pkgOf(e.Parent()) != "txlogs" {
				r.Violate("panic", fnName(e.Parent())+"|"+n, p.instrPos(e), n+" is called by hand: nothing ensures that it is in the right state for it", nil)
			}
		}
	}
	for _, e := range p.inEdges(do) {
		r.Oblige("panic", fnName(e.Parent())+" "+p.instrPos(e))
		for _, a := range e.Common().Args {
			var g *ssa.Function
			switch x := a.(type) {
			case *ssa.MakeClosure:
				g, _ = x.Fn.(*ssa.Function)
			case *ssa.Function:
				g = x
			}
			if g != nil && (p.reach(g)[do] || p.reach(g)[begin]) {
				r.Violate("panic", fnName(e.Parent())+"|nested", p.instrPos(e), "a transaction is begun within this one, which panics", nil)
			}
		}
	}
}

// stringsOf are the strings a package variable is initialized with.
func (p *Prog) stringsOf(name string) (out []string) {
	for g := range p.globals {
		if trimMod(g.String()) != name {
			continue
		}
		init := g.Pkg.Func("init")
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind().String() == "String" {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && sliceOf(ia.X, g, init) {
						out = append(out, strings.Trim(c.Value.ExactString(), `"`))
					}
				}
			}
		}
	}
	return out
}

func sliceOf(arr ssa.Value, g *ssa.Global, init *ssa.Function) bool {
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if sl, ok := st.Val.(*ssa.Slice); ok && sl.X == arr {
					return true
				}
			}
		}
	}
	return false
}

// sizePromises: what is relied on elsewhere about the sizes that functions of
// the program return.
func sizePromises(r *Run) {
	p := r.P
	run := func(name string, exit func(s *State, ps, res []*Term) bool) {
		f := p.fn(name)
		if f == nil {
			return // nothing relies on it then
		}
		b := &bounds{r: newRun(r.ID, r.Tier, p), rule: "bounds", leafs: map[string]*leafTaint{}}
		b.tainted = func(t *Term) bool { return true }
		c := b.client()
		c.Inline = func(g *ssa.Function) (bool, bool) { return pkgOf(g) == pkgOf(f) && pkgOf(f) != "main", true }
		c.Track = func(string) bool { return true }
		m := newSim(p, c)
		m.AxiomNonNeg = configSizes
		var params []*Term
		c.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
			r.Oblige("size", name+" "+p.instrPos(in))
			if !exit(s, params, res) {
				r.Violate("size", name, p.instrPos(in), "what is returned without an error can be out of the range that callers rely on", s.Trail(10))
			}
		}
		m.Run(f, func(s *State, ps []*Term) { params = ps })
		r.absorb(m, name)
	}
	run("(*main.uiContext).getMenuChoice", func(s *State, ps, res []*Term) bool {
		T := s.sim.T
		return len(res) != 2 || s.NonNil(res[1]) || s.ProveLE(T.Zero, res[0]) && s.ProveLT(res[0], T.Len(ps[len(ps)-1]))
	})
	params := p.typ("crypt.Params")
	run("crypt.Decrypt", func(s *State, ps, res []*Term) bool {
		T := s.sim.T
		if params == nil || s.NonNil(res[len(res)-1]) {
			return true
		}
		for _, x := range res {
			if x.typ != nil && types.Identical(x.typ, params) {
				u, k, sa := s.fieldOf(x, params, "User"), s.fieldOf(x, params, "Keys"), s.fieldOf(x, params, "Salts")
				return s.ProveLE(T.Zero, u) && s.ProveLT(u, T.Len(k)) && s.ProveLT(u, T.Len(sa))
			}
		}
		return true
	})
	if f := p.fn("(blobformat.SearchResults).UUIDs"); f != nil {
		r.Oblige("size", fnName(f))
		if !onePerKey(f) {
			r.Violate("size", fnName(f), p.pos(f.Pos()), "it can return fewer ids than there are results", nil)
		}
	}
}

// onePerKey: the list returned has an element for every key of the receiver.
func onePerKey(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mk, ok := in.(*ssa.MakeSlice); ok {
				if c, ok := mk.Len.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && c.Call.Args[0] == f.Params[0] {
						return true
					}
				}
			}
			nx, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			if rg, ok := nx.Iter.(*ssa.Range); !ok || rg.X != f.Params[0] {
				continue
			}
			body := loopBody(b)
			for bb := range body {
				for _, y := range bb.Instrs {
					c, ok := y.(*ssa.Call)
					if !ok {
						continue
					}
					bi, ok := c.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "append" {
						continue
					}
					all := true
					for _, pr := range b.Preds {
						if body[pr] && !bb.Dominates(pr) {
							all = false
						}
					}
					if all {
						return true
					}
				}
			}
		}
	}
	return false
}

// assumed are operations in range for reasons outside of this analysis.
func assumed(s *State, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		b, i := s.val(x.X), s.val(x.Index)
		fb, pb := fieldTerm(b)
		fi, pi := fieldTerm(i)
		if (fb == "crypt.Params.Keys" || fb == "crypt.Params.Salts") && fi == "crypt.Params.User" && pb == pi {
			return "the user of a decrypted file is one of those in it"
		}
		if storedIndex(x) {
			return "positions that were collected by going through the very list they index"
		}
		if f := x.Parent(); f.Parent() != nil && fnName(f.Parent()) == "txlogs.Merge" {
			return "positions in the log being merged (C16)"
		}
	case *ssa.Slice:
		fb, pb := fieldTerm(s.val(x.X))
		if x.High != nil && fb != "" && x.Low == nil {
			if l := s.sim.T.linOf(s.val(x.High)); len(l.v) == 1 && l.c < 0 && fb == "txlogs.DB.Log" {
				for a, k := range l.v {
					if fi, pi := fieldTerm(a); k == 1 && fi == "txlogs.DB.txPoint" && pi == pb {
						return "a transaction only adds to the log"
					}
				}
			}
		}
	}
	return ""
}

func fieldTerm(x *Term) (string, *Term) {
	switch {
	case x.op == OField:
		return fieldName(x.args[0].typ, x.idx), x.args[0]
	case x.op == OLoad && x.args[0].op == OFieldAddr:
		return fieldName(deref(x.args[0].args[0].typ), x.args[0].idx), x.args[0].args[0]
	}
	return "", nil
}

func fieldName(T types.Type, i int) string {
	if T == nil {
		return ""
	}
	if _, ok := structUnder(T); !ok {
		return ""
	}
	return trimMod(string(fieldKeyOf(T, i)))
}

// storedIndex: the index was read from a list to which only positions were
// added that had been used on the same thing before.
func storedIndex(x *ssa.IndexAddr) bool {
	ld, ok := x.Index.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	el, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	same := func(a, b ssa.Value) bool {
		fa, pa := loadedField(a)
		fb, pb := loadedField(b)
		return a == b || fa != "" && fa == fb && pa == pb
	}
	used := func(v ssa.Value, at *ssa.BasicBlock) bool {
		for _, b := range at.Parent().Blocks {
			if !b.Dominates(at) {
				continue
			}
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == v && same(ia.X, x.X) {
					return true
				}
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	ok = true
	n := 0
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				walk(e)
			}
		case *ssa.MakeSlice, *ssa.Const:
		case *ssa.Slice:
			if al, isA := y.X.(*ssa.Alloc); isA {
				// make([]int, 0, k) or the values appended
				for _, ref := range *al.Referrers() {
					if ia, isI := ref.(*ssa.IndexAddr); isI {
						for _, r2 := range *ia.Referrers() {
							if st, isS := r2.(*ssa.Store); isS {
								n++
								ok = ok && used(st.Val, st.Block())
							}
						}
					}
				}
				return
			}
			walk(y.X)
		case *ssa.Call:
			if bi, isB := y.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
				for _, a := range y.Call.Args {
					walk(a)
				}
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(el.X)
	return ok && n > 0
}

func loadedField(v ssa.Value) (string, ssa.Value) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return "", nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	return fieldName(deref(fa.X.Type()), fa.Field), fa.X
}

// mergeCalls are the names of the functions that merge two logs into one.
func (p *Prog) mergeCalls() map[string]bool {
	if p.mergeNames == nil {
		p.mergeNames = map[string]bool{}
		for _, f := range p.modFuncs() {
			if pkgOf(f) == "main" && f.Parent() == nil && callsDirect(f, "txlogs.Merge") && f.Signature.Results().Len() > 0 {
				p.mergeNames[fnName(f)] = true
			}
		}
	}
	return p.mergeNames
}
