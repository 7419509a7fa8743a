package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C23", Title: "generated passwords are uniformly random", Run: runC23,
		Explanation: "The generator is executed abstractly: every character that goes into a password must be picked from an alphabet by an index that crypto/rand drew from exactly the range of the alphabet, the whole is then shuffled by swaps that are uniform for their position and cover all positions, and errors are passed on. The prompt may only hand out what was generated without an error or typed twice."})
}

func runC23(r *Run) {
	r.Rule("picked: every character of a password is an element of an alphabet chosen by an index drawn from exactly that alphabet's range by crypto/rand")
	r.Rule("drawn: what is drawn is used as it is: not reduced, masked or narrowed")
	r.Rule("shuffled: after the last pick every position is swapped with one drawn uniformly from those that remain")
	r.Rule("refused: when a draw fails or the settings are impossible nothing is returned but an error")
	r.Rule("accepted: the prompt hands out a password only if it was generated without an error, or typed the same twice")
	p := r.P
	gen := r.Anchor("main.genPassword")
	if gen == nil {
		return
	}
	generates(r, gen)
	n := 0
	for _, f := range p.modFuncs() {
		if f.Parent() != nil || pkgOf(f) != "main" || f == gen {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && isStringType(rs.At(0).Type()) && rs.At(1).Type().String() == "error" && p.staticReach(f)[gen] && f.Signature.Params().Len() <= 1 {
			n++
			accepts(r, f, gen)
		}
	}
	if n == 0 {
		r.Violate("anchor", "prompt", "-", "no function asks for a password and offers to generate it", nil)
	}
	for _, f := range p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n := calleeName(c.Common()); strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "(*math/rand") {
						r.Violate("drawn", fnName(f), p.instrPos(in), n+" is predictable", nil)
					}
				}
			}
		}
	}
	r.Need("picked", 2)
	r.Need("shuffled", 2)
	r.Need("refused", 2)
	r.Need("accepted", 2)
}

// draw: x is what crypto/rand drew from [0,n); off is what was added to it.
func draw(m *Sim, x *Term) (k, n, off *Term) {
	T := m.T
	l := T.linOf(x)
	for a, co := range l.v {
		y := stripConv(a)
		if (y.op == OCall || y.op == OPure) && y.name == "(*math/big.Int).Int64" && len(y.args) == 1 {
			c, i := resOf(y.args[0], "crypto/rand.Int")
			if c == nil || i != 0 || co != 1 || k != nil {
				return nil, nil, nil
			}
			nb := c.args[1]
			if nb.op != OCall && nb.op != OPure || nb.name != "math/big.NewInt" {
				return nil, nil, nil
			}
			o := l.clone()
			delete(o.v, a)
			k, n, off = c, stripConv(nb.args[0]), T.linTerm(o)
		} else if drawn(a) {
			return nil, nil, nil
		}
	}
	return k, n, off
}

// drawn: x depends on something random.
func drawn(x *Term) bool {
	return x.any(func(y *Term) bool {
		return (y.op == OCall || y.op == OPure) && (strings.HasPrefix(y.name, "crypto/rand.") || strings.HasPrefix(y.name, "math/rand"))
	})
}

func isByte(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

func generates(r *Run, gen *ssa.Function) {
	p := r.P
	b := &bounds{r: newRun(r.ID, r.Tier, p), rule: "bounds", leafs: map[string]*leafTaint{}}
	b.tainted = func(t *Term) bool { return true }
	cl := b.client()
	cl.Name = "gen"
	cl.KeepFacts = false
	cl.OnInstr = nil
	cl.Inline = func(f *ssa.Function) (bool, bool) { return pkgOf(f) == "main", true }
	cl.Track = func(string) bool { return true }
	m := newSim(p, cl)
	T := m.T
	m.AxiomFacts = sizeFacts
	uniform := func(s *State, k *Term, in ssa.Instruction) {
		// the source of randomness is the system's
		src := k.args[0]
		for src.op == OIface {
			src = src.args[0]
		}
		if !src.any(func(y *Term) bool { return y.op == OGlobal && y.obj.(*ssa.Global).String() == "crypto/rand.Reader" }) {
			r.Violate("drawn", fnName(in.Parent())+"|source", p.instrPos(in), "what is drawn does not come from the system's random source", s.Trail(8))
		}
	}
	pick := func(s *State, base, i *Term, in ssa.Instruction) {
		r.Oblige("picked", p.instrPos(in))
		k, n, off := draw(m, i)
		if k == nil || !s.eqInt(off, T.Zero) || !s.eqInt(n, T.Len(base)) {
			r.Violate("picked", fnName(in.Parent()), p.instrPos(in), "a character is not picked by an index that was drawn from exactly the range of its alphabet", s.Trail(10))
			return
		}
		uniform(s, k, in)
		// the alphabet itself is drawn, or its turn in a pass over all of them
		if base.any(func(y *Term) bool {
			return (y.op == OIndexAddr || y.op == OIndex || y.op == OLookup) && len(y.args) >= 2 && !drawn(y.args[1]) && y.args[1].any(func(z *Term) bool {
				return z.op == OBin && (z.tok == token.REM || z.tok == token.QUO || z.tok == token.AND || z.tok == token.SHR || z.tok == token.XOR)
			})
		}) {
			r.Violate("picked", fnName(in.Parent())+"|alphabet", p.instrPos(in), "the alphabet a character is picked from is computed, neither drawn nor its turn in a pass over all of them", s.Trail(10))
		}
		delete(s.cl, "shuffled")
	}
	put := func(s *State, dst, at, v *Term, in ssa.Instruction) {
		for v.op == OConvert {
			v = v.args[0]
		}
		if dst != nil && v.op == OLoad && v.args[0].op == OIndexAddr && swapBases(dst, v.args[0].args[0]) {
			// one half of a swap
			r.Oblige("shuffled", p.instrPos(in))
			j := v.args[0].args[1]
			i := at
			k, n, off := draw(m, i)
			if k == nil {
				i, j = j, i
				k, n, off = draw(m, i)
			}
			ok := k != nil && !drawn(j)
			if ok {
				lower := s.eqInt(off, T.Zero) && s.eqInt(n, T.Bin(token.ADD, j, T.One, types.Typ[types.Int]))
				upper := s.eqInt(off, j) && s.eqInt(T.Bin(token.ADD, n, j, types.Typ[types.Int]), T.Len(dst))
				ok = lower || upper
			}
			if !ok {
				r.Violate("shuffled", fnName(in.Parent()), p.instrPos(in), "a position is not swapped with one drawn uniformly from those that remain", s.Trail(10))
				return
			}
			uniform(s, k, in)
			return
		}
		if v.op == OLookup || v.op == OLoad && v.args[0].op == OIndexAddr || v.op == OIndex {
			x := v
			if v.op == OLoad {
				x = v.args[0]
			}
			if len(x.args) >= 2 {
				pick(s, x.args[0], x.args[1], in)
				return
			}
		}
		r.Oblige("picked", p.instrPos(in))
		r.Violate("picked", fnName(in.Parent())+"|other", p.instrPos(in), "a character of the password is not picked from an alphabet ("+v.String()+")", s.Trail(10))
	}
	cl.OnStore = func(s *State, addr, v *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr && v.typ != nil && isByte(v.typ) && isByte(in.(*ssa.Store).Val.Type()) {
			put(s, addr.args[0], addr.args[1], v, in)
		}
	}
	cl.OnCall = func(ev *CallEv) {
		switch ev.Name {
		case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
			put(ev.S, nil, nil, ev.Args[1], ev.Instr)
		case "crypto/rand.Read", "io.ReadFull":
			r.Violate("drawn", fnName(ev.Instr.Parent())+"|bytes", p.instrPos(ev.Instr), "random bytes are not drawn from the range they are used in", ev.S.Trail(8))
		}
	}
	cl.OnInstr = func(s *State, in ssa.Instruction) {
		if bo, ok := in.(*ssa.BinOp); ok {
			switch bo.Op {
			case token.REM, token.QUO, token.AND, token.SHR, token.SHL, token.MUL, token.OR, token.XOR, token.AND_NOT:
				if drawn(s.val(bo.X)) || drawn(s.val(bo.Y)) {
					r.Violate("drawn", fnName(in.Parent()), p.instrPos(in), "what was drawn is changed before it is used, which favours some outcomes", s.Trail(8))
				}
			}
		}
		if cv, ok := in.(*ssa.Convert); ok && isIntType(cv.Type()) && isIntType(cv.X.Type()) && drawn(s.val(cv.X)) {
			r.Oblige("drawn", p.instrPos(in))
			if w := types.SizesFor("gc", "amd64").Sizeof(cv.Type()); w < 8 {
				r.Violate("drawn", fnName(in.Parent())+"|narrow", p.instrPos(in), "what was drawn is narrowed", s.Trail(8))
			}
		}
	}
	shuf := map[*ssa.BasicBlock]string{}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		why, ok := shuf[h]
		if !ok {
			why = shuffleLoop(h)
			shuf[h] = why
		}
		if why == "ok" {
			s.cl["shuffled"] = T.True
		} else if why != "" {
			r.Violate("shuffled", fnName(h.Parent())+"|range", p.instrPos(h.Instrs[len(h.Instrs)-1]), why, nil)
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		e := res[len(res)-1]
		where := p.instrPos(in)
		if s.NonNil(e) {
			r.Oblige("refused", where)
			if !isStr(res[0], "") {
				r.Violate("refused", "value", where, "something is returned with the error", s.Trail(8))
			}
			return
		}
		r.Oblige("shuffled", where)
		if s.cl["shuffled"] == nil {
			r.Violate("shuffled", "exit", where, "the password is returned without being shuffled after its last character was picked", s.Trail(10))
		}
		// nothing failed on the way
		if !s.IsNil(e) {
			r.Violate("refused", "error", where, "whether there is an error is not known", s.Trail(8))
		}
	}
	prev := cl.OnResult
	cl.OnResult = func(ev *CallEv, res *Term) {
		if prev != nil {
			prev(ev, res)
		}
		if ev.Name == "crypto/rand.Int" {
			ev.S.cl["draw"] = errOf(T, res, 1)
		}
	}
	use := cl.OnInstr
	choose := func(s *State, in ssa.Instruction, x, i ssa.Value) {
		y := s.val(i)
		if !drawn(y) || isByteSlice(x.Type()) {
			return // swaps are judged where they are stored
		}
		r.Oblige("picked", p.instrPos(in))
		k, n, off := draw(m, y)
		if k == nil || !s.eqInt(off, T.Zero) || !s.eqInt(n, T.Len(s.val(x))) {
			r.Violate("picked", fnName(in.Parent())+"|choice", p.instrPos(in), "the index something is chosen by was not drawn from exactly the range of the list", s.Trail(10))
		}
	}
	cl.OnInstr = func(s *State, in ssa.Instruction) {
		use(s, in)
		switch x := in.(type) {
		case *ssa.IndexAddr:
			choose(s, in, x.X, x.Index)
		case *ssa.Index:
			choose(s, in, x.X, x.Index)
		case *ssa.Lookup:
			if isStringType(x.X.Type()) {
				choose(s, in, x.X, x.Index)
			}
		}
		// a draw is used only where it did not fail
		if c, ok := in.(*ssa.Call); ok && calleeName(c.Common()) == "(*math/big.Int).Int64" {
			x := s.val(c.Common().Args[0])
			if k, i := resOf(x, "crypto/rand.Int"); k != nil && i == 0 {
				r.Oblige("refused", p.instrPos(in))
				if !s.IsNil(errOf(T, k, 1)) {
					r.Violate("refused", fnName(in.Parent())+"|draw", p.instrPos(in), "what was drawn is used although drawing may have failed", s.Trail(8))
				}
			}
		}
	}
	m.Run(gen, nil)
	r.absorb(m, fnName(gen))
}

func swapBases(a, b *Term) bool {
	return bufOf(a) == bufOf(b)
}

// shuffleLoop: "ok" if the loop at h swaps elements of a byte slice at every
// position, "" if it does not swap, else what is wrong with it.
func shuffleLoop(h *ssa.BasicBlock) string {
	body := loopBody(h)
	var idx ssa.Value // the position that is not random
	var base ssa.Value
	for b := range body {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isByte(st.Val.Type()) {
				continue
			}
			ld, ok := st.Val.(*ssa.UnOp)
			if !ok {
				continue
			}
			ib, ok := ld.X.(*ssa.IndexAddr)
			if !ok || ib.X != ia.X {
				continue
			}
			base = ia.X
			for _, v := range []ssa.Value{ia.Index, ib.Index} {
				if phi, _ := inductive(h, v); phi != nil {
					idx = v
				}
			}
		}
	}
	if base == nil {
		return ""
	}
	// an enclosing loop is not the one that swaps
	if idx == nil {
		for b := range body {
			if b != h {
				for _, pr := range b.Preds {
					if body[pr] && b.Dominates(pr) {
						return ""
					}
				}
			}
		}
		return "no position runs through the whole password"
	}
	phi, c := inductive(h, idx)
	var first ssa.Value
	step, ok := int64(0), false
	for i, e := range phi.Edges {
		if body[h.Preds[i]] {
			if bo, isB := e.(*ssa.BinOp); isB && bo.X == phi {
				if k, isC := bo.Y.(*ssa.Const); isC {
					step, ok = k.Int64(), true
					if bo.Op == token.SUB {
						step = -step
					}
				}
			}
		} else {
			first = e
		}
	}
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || first == nil || !isIf {
		return "the positions that are swapped are not known to be all"
	}
	cond, isB := iff.Cond.(*ssa.BinOp)
	if !isB || !body[h.Succs[0]] {
		return "the positions that are swapped are not known to be all"
	}
	cphi, cc := inductive(h, cond.X)
	if cphi != phi {
		return "the positions that are swapped are not known to be all"
	}
	for b := range body {
		for _, out := range b.Succs {
			if b == h || body[out] {
				continue
			}
			for len(out.Instrs) == 1 && len(out.Succs) == 1 {
				out = out.Succs[0]
			}
			ret, isR := out.Instrs[len(out.Instrs)-1].(*ssa.Return)
			if !isR || len(ret.Results) == 0 {
				return "swapping can stop early"
			}
			if k, isC := ret.Results[len(ret.Results)-1].(*ssa.Const); isC && k.IsNil() {
				return "swapping can stop early"
			}
		}
	}
	switch step {
	case -1:
		// from len-1 down to at most 1
		n, off := lenOff(first)
		lim, isC := cond.Y.(*ssa.Const)
		if n != nil && off+c == -1 && isC && (cond.Op == token.GTR && lim.Int64()+1-cc+c <= 1 || cond.Op == token.GEQ && lim.Int64()-cc+c <= 1) {
			return "ok"
		}
	case 1:
		f, isC := first.(*ssa.Const)
		n, off := lenOff(cond.Y)
		if isC && n != nil && f.Int64()+c <= 1 && cond.Op == token.LSS {
			// last phi+cc == len+off-1; E = phi+c
			last := off - 1 - cc + c
			if last == -1 || last == -2 && f.Int64()+c <= 0 {
				return "ok"
			}
		}
	}
	return "not every position is swapped"
}

// inductive: v is a phi of h plus a constant.
func inductive(h *ssa.BasicBlock, v ssa.Value) (*ssa.Phi, int64) {
	c := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == h {
				return x, c
			}
			return nil, 0
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || x.Op != token.ADD && x.Op != token.SUB {
				return nil, 0
			}
			if x.Op == token.ADD {
				c += k.Int64()
			} else {
				c -= k.Int64()
			}
			v = x.X
		default:
			return nil, 0
		}
	}
}

// lenOff: v is len(x) plus a constant.
func lenOff(v ssa.Value) (ssa.Value, int64) {
	c := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return x.Call.Args[0], c
			}
			return nil, 0
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || x.Op != token.ADD && x.Op != token.SUB {
				return nil, 0
			}
			if x.Op == token.ADD {
				c += k.Int64()
			} else {
				c -= k.Int64()
			}
			v = x.X
		default:
			return nil, 0
		}
	}
}

// accepts: the prompt.
func accepts(r *Run, root, gen *ssa.Function) {
	p := r.P
	cl := &Client{Name: "accept"}
	cl.Track = func(n string) bool {
		return strings.HasSuffix(n, "promptPassword") || strings.HasSuffix(n, ".Password") || strings.HasSuffix(n, ".LineHidden")
	}
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		return pkgOf(f) == "main" && f != gen && (p.staticReach(f)[gen] || f.Parent() == nil && p.staticCalls(f, func(n string, _ ssa.CallInstruction) bool { return strings.HasSuffix(n, "promptPassword") }) && !strings.HasSuffix(f.Name(), "promptPassword")), true
	}
	cl.WeakStore = func(a *Term) bool { return a.op == OAllocAddr && a.typ != nil && isIntType(deref(a.typ)) }
	cl.Facts = func(f *Term) bool {
		// which choice was made does not matter
		return f.op == OBin && f.tok == tokEQL && !f.any(func(y *Term) bool {
			t, ok := y.strVal()
			return ok && t != ""
		})
	}
	m := newSim(p, cl)
	T := m.T
	typed := func(x *Term) *Term {
		k := callOf(x)
		if k.op == OCall && k.name != fnName(gen) && k != x {
			if tup, ok := k.typ.(*types.Tuple); ok && tup.Len() == 2 {
				return k
			}
		}
		return nil
	}
	// which of what was typed came without an error
	noErr := func(s *State) {
		for _, k := range sortedKeys(s.cl) {
			if c := s.cl[k]; strings.HasPrefix(k, "typed:") && s.IsNil(errOf(T, c, 1)) {
				s.cl["fine:"+strconv.Itoa(c.id)] = c
			}
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		if cl.Track(ev.Name) && ev.Instr.(ssa.CallInstruction).Common().Signature().Results().Len() == 2 {
			if res.op == OTuple {
				res = callOf(res.args[0])
			}
			ev.S.cl["typed:"+p.instrPos(ev.Instr)] = res
		}
	}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		for _, k := range sortedKeys(s.cl) {
			if strings.HasPrefix(k, "typed:") || strings.HasPrefix(k, "fine:") {
				delete(s.cl, k)
			}
		}
	}
	cl.OnReturn = func(s *State, fn *ssa.Function, res []*Term, site ssa.Instruction) { noErr(s) }
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if s.NonNil(res[1]) {
			return
		}
		noErr(s)
		fine := func(k *Term) bool { return s.cl["fine:"+strconv.Itoa(k.id)] != nil }
		where := p.instrPos(in)
		r.Oblige("accepted", where)
		x := res[0]
		if k := typed(x); k != nil {
			// typed: it equals something else that was typed
			ok := false
			for f, v := range s.facts {
				if v && f.op == OBin && f.tok == tokEQL {
					for i := 0; i < 2; i++ {
						if f.args[i] == x {
							if k2 := typed(f.args[1-i]); k2 != nil && k2 != k && fine(k2) && fine(k) {
								ok = true
							}
						}
					}
				}
			}
			if !ok {
				r.Violate("accepted", "typed", where, "a password that was typed is handed out without being confirmed", s.Trail(10))
			}
			return
		}
		if k := callOf(x); k.op == OCall && k.name == fnName(gen) && s.IsNil(errOf(T, k, 1)) {
			return
		}
		// nothing is returned with an error, so anything is a success
		if !(s.Known(T.Eq(x, T.Str("")), false) || s.Known(T.Eq(T.Len(x), T.Zero), false) || s.ProveLE(T.One, T.Len(x))) {
			r.Violate("accepted", "generated", where, "a password is handed out although generating it may have failed", s.Trail(10))
			return
		}
		rv := in.(*ssa.Return).Results[0]
		for _, src := range p.sources(rv, prov{leaf: func(v ssa.Value) bool {
			switch y := v.(type) {
			case *ssa.Extract:
				_, ok := y.Tuple.(*ssa.Call)
				return ok
			}
			return false
		}}) {
			switch y := src.(type) {
			case *ssa.Const:
				if y.Value == nil || y.Value.ExactString() == `""` {
					continue
				}
			case *ssa.Extract:
				if c := y.Tuple.(*ssa.Call); c.Common().StaticCallee() == gen && y.Index == 0 {
					continue
				}
			}
			r.Violate("accepted", "other", where, "what is handed out as the generated password is something else", s.Trail(10))
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}
