package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// val evaluates an SSA operand.
func (s *State) val(v ssa.Value) *Term {
	m := s.sim
	switch x := v.(type) {
	case nil:
		return m.T.None
	case *ssa.Const:
		return m.constTerm(x)
	case *ssa.Global:
		return m.T.Global(x)
	case *ssa.Function:
		return m.T.Func(x)
	case *ssa.Builtin:
		return m.T.None
	}
	fr := s.top()
	if t, ok := fr.env[v]; ok {
		return t
	}
	// pruned or never computed: unknown
	return m.T.Leaf(leafID{ctx: fr.ctx, at: v, tag: "undef"}, v.Type())
}

func (s *State) set(v ssa.Value, t *Term) { s.top().env[v] = t }

// enterBlock moves the top frame along an edge, evaluating phis.
func (m *Sim) enterBlock(s *State, to *ssa.BasicBlock) bool {
	fr := s.top()
	from := fr.blk
	back := to.Dominates(from)
	fi := m.info(fr.fn)
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, s.val(ph.Edges[pi]))
	}
	header := fi.headers[to]
	if header && back {
		if m.C.OnBackEdge != nil {
			m.C.OnBackEdge(s, to)
		}
		if m.concreteLoop(s, to, phis, vals) {
			for i, ph := range phis {
				fr.env[ph] = vals[i]
			}
		} else {
			m.widen(s, to, phis, vals)
		}
	} else {
		if header {
			if fr.loopMem == nil {
				fr.loopMem = map[*ssa.BasicBlock]map[*Term]*Term{}
			}
			snap := make(map[*Term]*Term, len(s.mem))
			for k, v := range s.mem {
				snap[k] = v
			}
			fr.loopMem[to] = snap
		}
		for i, ph := range phis {
			fr.env[ph] = vals[i]
		}
		if header && m.C.Houdini {
			m.houdiniEntry(s, to, phis, vals)
		}
	}
	fr.prev = from
	fr.blk = to
	fr.idx = len(phis)
	if header && m.C.OnHeader != nil {
		m.C.OnHeader(s, to)
	}
	// prune
	live := fi.liveIn[to]
	for k := range fr.env {
		if !live[k] {
			if ph, ok := k.(*ssa.Phi); ok && ph.Block() == to {
				continue
			}
			delete(fr.env, k)
		}
	}
	// drop loop snapshots of loops we left
	for h := range fr.loopMem {
		if !h.Dominates(to) {
			delete(fr.loopMem, h)
			if m.C.Houdini {
				_, k := m.houFor(fr.ctx, h)
				for key := range s.cl {
					if strings.HasPrefix(key, "hou:"+k+":") {
						delete(s.cl, key)
					}
				}
			}
		}
	}
	if m.C.Coarse && (len(to.Preds) > 1 || header) {
		m.coarsen(s, to)
	}
	s.gc()
	if len(to.Preds) > 1 || header {
		k := s.key()
		if m.visited[k] {
			return false
		}
		m.visited[k] = true
	}
	return true
}

// coarsen forgets, where paths meet, all that is not a pointer, a function, an
// interface (an error) or a constant, so that paths that differ in data only
// become one.
func (m *Sim) coarsen(s *State, to *ssa.BasicBlock) {
	fr := s.top()
	data := func(v *Term, T types.Type) bool {
		if v.isConst() || v == m.T.None {
			return false
		}
		switch T.Underlying().(type) {
		case *types.Basic, *types.Slice, *types.Map, *types.Array:
			return true
		}
		return false
	}
	var vs []ssa.Value
	for k, v := range fr.env {
		if data(v, k.Type()) {
			vs = append(vs, k)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return m.T.objID(vs[i]) < m.T.objID(vs[j]) })
	for _, k := range vs {
		fr.env[k] = m.T.None
	}
	for _, k := range vs {
		fr.env[k] = s.leafAt(fr.ctx, to, fmt.Sprintf("v%d", m.T.objID(k)), k.Type())
	}
	for _, k := range sortedKeys(s.epoch) {
		s.epoch[k] = s.leafAt(fr.ctx, to, "ep:"+k, nil)
	}
	for {
		var a *Term
		for x, v := range s.mem {
			if data(v, deref(x.typ)) && (v.leaf == nil || v.leaf.at != any(to) || v.leaf.tag != fmt.Sprintf("c%d", x.id)) && (a == nil || x.id < a.id) {
				a = x
			}
		}
		if a == nil {
			break
		}
		s.mem[a] = m.T.None
		s.mem[a] = s.leafAt(fr.ctx, to, fmt.Sprintf("c%d", a.id), deref(a.typ))
	}
}

// keepable reports loop-carried values that need no widening.
func keepable(v *Term) bool {
	switch v.op {
	case OLeaf, OParam, ONil, OGlobal, OFunc, OSentinel, OAllocAddr, OMake, OLoad, OCall, OField, OLookup, OIface, OFieldAddr:
		return v.depth < 14
	case OExtract, OPure, OConvert, OAssert, OZero:
		return v.depth < 14
	case OClosure:
		return v.depth < 14
	case OConst:
		return v.isBool(true) || v.isBool(false)
	case OStruct:
		for _, a := range v.args {
			if !keepable(a) {
				return false
			}
		}
		return true
	}
	return false
}

// widen handles a loop back edge: loop-carried values that may grow become
// the canonical leaf of the phi.
func (m *Sim) widen(s *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) {
	fr := s.top()
	// 1. which phis are replaced by their canonical leaf
	type rep struct {
		ph  *ssa.Phi
		old *Term
	}
	newv := make([]*Term, len(vals))
	copy(newv, vals)
	var reps []int
	for i, ph := range phis {
		v := vals[i]
		cur := fr.env[ph]
		if cur == v && !isIntType(ph.Type()) {
			continue
		}
		if keepable(v) && !isIntType(ph.Type()) {
			continue
		}
		if cur == v && v.isConst() {
			continue
		}
		reps = append(reps, i)
	}
	// 2. memory cells that grow
	type mrep struct {
		addr *Term
		old  *Term
		leaf *Term
	}
	var mreps []mrep
	snap := fr.loopMem[h]
	for a, v := range s.mem {
		if snap != nil && snap[a] == v {
			continue
		}
		T := deref(a.typ)
		if keepable(v) && !isIntType(T) {
			continue
		}
		if v.isConst() && !isIntType(T) && !isStringType(T) {
			continue
		}
		if l := m.T.Leaf(leafID{ctx: fr.ctx, at: h, tag: fmt.Sprintf("w%d", a.id)}, T); l == v {
			// unchanged since it was last widened
			continue
		}
		mreps = append(mreps, mrep{addr: a, old: v})
	}
	if m.C.Houdini {
		m.houdiniBack(s, h, phis, vals)
		if m.restart {
			return
		}
	}
	// 3. retire old leaves, then install fresh ones
	oldEnv := make([]*Term, len(phis))
	for i, ph := range phis {
		oldEnv[i] = fr.env[ph]
	}
	for i, ph := range phis {
		fr.env[ph] = newv[i]
	}
	curs := make([]*Term, len(phis))
	for _, i := range reps {
		curs[i] = oldEnv[i]
		fr.env[phis[i]] = m.T.None
	}
	for i := range mreps {
		s.mem[mreps[i].addr] = m.T.None
	}
	for _, i := range reps {
		ph := phis[i]
		if x := m.windowOf(s, ph, curs[i], newv[i]); x != nil {
			fr.env[ph] = x
			continue
		}
		l := s.leafAt(fr.ctx, ph, "", ph.Type())
		if m.C.OnWiden != nil {
			m.C.OnWiden(s, l, h, curs[i], newv[i])
		}
		// struct typed phis
		fr.env[ph] = m.expand(l, ph.Type())
	}
	for _, r := range mreps {
		l := s.leafAt(fr.ctx, h, fmt.Sprintf("w%d", r.addr.id), deref(r.addr.typ))
		if m.C.OnWiden != nil {
			m.C.OnWiden(s, l, h, snap[r.addr], r.old)
		}
		s.mem[r.addr] = l
	}
	if m.C.Houdini {
		m.houdiniAssume(s, h, phis)
	}
}

// windowOf keeps what a slice that a loop narrows is a part of: x = x[n:] stays
// a window, of unknown place, of the slice it was before the loop.
func (m *Sim) windowOf(s *State, ph *ssa.Phi, cur, next *Term) *Term {
	if cur == nil || next.op != OSlice {
		return nil
	}
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	root, base := next.args[0], cur
	if cur.op == OSlice {
		base = cur.args[0]
	}
	if root != base || root.typ == nil {
		return nil
	}
	if _, ok := root.typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	curHi := m.T.None
	if cur.op == OSlice {
		curHi = cur.args[2]
	}
	fr := s.top()
	fact := func(a, b *Term) { // a <= b
		if f := m.T.Bin(token.LSS, b, a, types.Typ[types.Bool]); f.op == OBin {
			s.facts[f] = false
		}
	}
	lo := s.leafAt(fr.ctx, ph, "lo", types.Typ[types.Int])
	hi := next.args[2]
	end := m.T.Len(root)
	if hi != curHi {
		hi = s.leafAt(fr.ctx, ph, "hi", types.Typ[types.Int])
		end = hi
		fact(hi, m.T.Len(root))
	} else if hi != m.T.None {
		end = hi
	}
	fact(m.T.Zero, lo)
	fact(lo, end)
	return m.T.mk(&Term{op: OSlice, args: []*Term{root, lo, hi}, typ: ph.Type()})
}

// step runs the state until it forks, ends or changes block.
func (m *Sim) step(s *State) []*State {
	for {
		if m.restart {
			return nil
		}
		fr := s.top()
		if fr.idx >= len(fr.blk.Instrs) {
			return nil
		}
		in := fr.blk.Instrs[fr.idx]
		if m.C.OnInstr != nil {
			m.C.OnInstr(s, in)
		}
		switch x := in.(type) {
		case *ssa.If:
			return m.doIf(s, x)
		case *ssa.Jump:
			if !m.enterBlock(s, fr.blk.Succs[0]) {
				return nil
			}
			return []*State{s}
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, s.val(r))
			}
			if len(s.frames) == 1 {
				m.Paths++
				if m.C.OnExit != nil {
					m.C.OnExit(s, res, x)
				}
				return nil
			}
			if m.C.OnReturn != nil {
				m.C.OnReturn(s, fr.fn, res, fr.site)
			}
			if !m.popFrame(s, res) {
				return nil
			}
			continue
		case *ssa.Panic:
			m.Paths++
			if m.C.OnPanic != nil {
				m.C.OnPanic(s, x, s.val(x.X))
			}
			return nil
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				st := m.invoke(s, d.instr, d.instr.Common(), x, d.fnT, d.args, true)
				if st == nil {
					continue
				}
				return st
			}
			fr.idx++
			continue
		case *ssa.Defer:
			fnT, args := s.callOperands(x.Common())
			d := deferred{instr: x, fnT: fnT, args: args}
			fr.defers = append(fr.defers, d)
			fr.idx++
			continue
		case *ssa.Go:
			fnT, args := s.callOperands(x.Common())
			st := m.invoke(s, x, x.Common(), x, fnT, args, false)
			if st == nil {
				continue
			}
			return st
		case *ssa.Call:
			fnT, args := s.callOperands(x.Common())
			st := m.invoke(s, x, x.Common(), x, fnT, args, false)
			if st == nil {
				continue
			}
			return st
		case ssa.Value:
			m.evalValue(s, x)
			fr.idx++
		default:
			m.evalEffect(s, in)
			fr.idx++
		}
	}
}

func (m *Sim) popFrame(s *State, res []*Term) bool {
	fr := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	par := s.top()
	if !fr.isDefer {
		if v, ok := fr.site.(ssa.Value); ok {
			var t *Term
			if len(res) == 1 {
				t = res[0]
			} else {
				t = m.T.Tuple(res...)
			}
			if m.liveAfter(fr.site)[v] {
				par.env[v] = t
			}
		}
		par.idx++
	}
	if m.C.DropFrames {
		m.dropFrame(s, fr)
	}
	s.gc()
	k := s.key()
	if m.visited[k] {
		return false
	}
	m.visited[k] = true
	return true
}

func hasArray(T types.Type) bool {
	switch x := T.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasArray(x.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// dropFrame forgets what only a frame that has returned can refer to.
func (m *Sim) dropFrame(s *State, fr *frame) {
	for a := range s.mem {
		if r := addrRoot(a); r.op == OAllocAddr && r.leaf != nil && r.leaf.ctx == fr.ctx {
			if al, ok := r.leaf.at.(*ssa.Alloc); ok && !al.Heap && !hasArray(deref(al.Type())) {
				delete(s.mem, a)
			}
		}
	}
}

func (m *Sim) doIf(s *State, x *ssa.If) []*State {
	return m.branch(s, x, s.val(x.Cond))
}

// branch takes the two ways a condition can turn out. Whether two conditions
// agree depends on each of them.
func (m *Sim) branch(s *State, x *ssa.If, c *Term) []*State {
	fr := s.top()
	t, f := fr.blk.Succs[0], fr.blk.Succs[1]
	e, neg := c, false
	for e.op == ONot {
		e, neg = e.args[0], !neg
	}
	if e.op == OBin && e.tok == token.EQL && isBoolType(e.args[0].typ) && isBoolType(e.args[1].typ) && !e.args[0].isConst() && !e.args[1].isConst() {
		if _, ok := s.Decide(c); !ok {
			s2 := s.clone()
			p, q := e.args[0], e.args[1]
			if neg {
				q = m.T.Not(q)
			}
			var out []*State
			if s.Assume(p, true) {
				out = m.branch(s, x, q)
			}
			if !m.restart && s2.Assume(p, false) {
				out = append(out, m.branch(s2, x, m.T.Not(q))...)
			}
			return out
		}
	}
	if v, ok := s.Decide(c); ok {
		if m.C.OnBranch != nil {
			m.C.OnBranch(s, c, v, x)
		}
		to := f
		if v {
			to = t
		}
		if !m.enterBlock(s, to) {
			return nil
		}
		return []*State{s}
	}
	var out []*State
	s2 := s.clone()
	if s.Assume(c, true) {
		s.note(x, "assume %s", c)
		if m.C.OnBranch != nil {
			m.C.OnBranch(s, c, true, x)
		}
		if m.enterBlock(s, t) {
			out = append(out, s)
		}
	}
	if m.restart {
		return nil
	}
	if s2.Assume(c, false) {
		s2.note(x, "assume !(%s)", c)
		if m.C.OnBranch != nil {
			m.C.OnBranch(s2, c, false, x)
		}
		if m.enterBlock(s2, f) {
			out = append(out, s2)
		}
	}
	return out
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (s *State) callOperands(c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fnT *Term
	if c.IsInvoke() {
		args = append(args, s.val(c.Value))
	} else {
		fnT = s.val(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, s.val(a))
	}
	return fnT, args
}

// invoke performs a call at instruction site (in the top frame). It returns
// nil if s simply continues, or the list of successor states.
func (m *Sim) invoke(s *State, in ssa.CallInstruction, c *ssa.CallCommon, site ssa.Instruction, fnT *Term, args []*Term, isDefer bool) []*State {
	fr := s.top()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r := m.builtin(s, b.Name(), in, args, c)
		if r != nil && !isDefer {
			if v, ok := in.(ssa.Value); ok {
				s.set(v, r)
			}
		}
		if !isDefer {
			fr.idx++
		}
		return nil
	}
	name := calleeName(c)
	var fn *ssa.Function
	var binds []*Term
	if c.IsInvoke() {
		recv := args[0]
		if recv.op == OIface {
			if sel := m.P.SSA.MethodSets.MethodSet(recv.typ).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := m.P.SSA.MethodValue(sel); f != nil {
					fn = f
					args = append([]*Term{recv.args[0]}, args[1:]...)
					name = fnName(f)
				}
			}
		}
	} else if f := c.StaticCallee(); f != nil {
		fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && fnT != nil && fnT.op == OClosure {
			_ = mc
			binds = fnT.args
		} else if fnT != nil && fnT.op == OClosure {
			binds = fnT.args
		}
	} else if fnT != nil && (fnT.op == OFunc || fnT.op == OClosure) {
		fn = fnT.obj.(*ssa.Function)
		binds = fnT.args
		name = fnName(fn)
	}
	if fn == nil && !c.IsInvoke() {
		// dynamic: resolve through the call graph
		var cands []*ssa.Function
		for _, f := range m.P.dynCallees(in) {
			if m.P.inModule[f] && len(f.FreeVars) == 0 {
				cands = append(cands, f)
			}
		}
		if len(cands) == 1 {
			fn = cands[0]
			name = fnName(fn)
		} else if len(cands) > 1 {
			var rel []*ssa.Function
			for _, f := range cands {
				if m.shouldInline(f) {
					rel = append(rel, f)
				}
			}
			if len(rel) > 0 {
				var out []*State
				for _, f := range cands {
					s2 := s.clone()
					s2.note(site, "dynamic call resolves to %s", fnName(f))
					st := m.callFn(s2, in, c, site, f, fnName(f), nil, args, isDefer)
					if st == nil {
						out = append(out, s2)
					} else {
						out = append(out, st...)
					}
				}
				return out
			}
			name = fnName(cands[0])
		} else {
			m.Unresolved[m.P.instrPos(in)] = true
		}
	}
	return m.callFn(s, in, c, site, fn, name, binds, args, isDefer)
}

func (m *Sim) callFn(s *State, in ssa.CallInstruction, c *ssa.CallCommon, site ssa.Instruction, fn *ssa.Function, name string, binds, args []*Term, isDefer bool) []*State {
	fr := s.top()
	ev := &CallEv{S: s, Name: name, Fn: fn, Args: args, Instr: in, Sig: c.Signature(), Ctx: fr.ctx}
	m.CallSites[name+"@"+m.P.instrPos(in)]++
	if m.C.OnCall != nil {
		m.C.OnCall(ev)
		if ev.Kill {
			m.Paths++
			return []*State{}
		}
		args = ev.Args
		if ev.Result != nil {
			if v, ok := in.(ssa.Value); ok && !isDefer {
				s.set(v, ev.Result)
			}
			if !isDefer {
				fr.idx++
			}
			return nil
		}
	}
	switch name {
	case "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		m.Paths++
		if m.C.OnOsExit != nil {
			code := m.T.One
			if name == "os.Exit" {
				code = args[0]
			}
			m.C.OnOsExit(s, code, in)
		}
		return []*State{}
	}
	if fn != nil && fn.Blocks != nil && m.P.inModule[fn] && m.shouldInline(fn) && !m.recursive(fr.ctx, fn) {
		ctx := m.newCtx(fr.ctx, site, fn)
		nf := &frame{fn: fn, ctx: ctx, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, site: site, isDefer: isDefer}
		for i, p := range fn.Params {
			if i < len(args) {
				nf.env[p] = args[i]
			}
		}
		for i, fv := range fn.FreeVars {
			if i < len(binds) {
				nf.env[fv] = binds[i]
			} else {
				nf.env[fv] = m.T.Leaf(leafID{ctx: ctx, at: fv, tag: "freevar"}, fv.Type())
			}
		}
		// prune the caller
		if !isDefer {
			live := m.liveAfter(site)
			for k := range fr.env {
				if !live[k] {
					delete(fr.env, k)
				}
			}
		}
		s.frames = append(s.frames, nf)
		m.Inlined[fn]++
		if m.C.OnEnter != nil {
			m.C.OnEnter(s, fn, args, site)
		}
		return nil
	}
	res := m.opaque(s, ev, in, fn, binds)
	if v, ok := in.(ssa.Value); ok && !isDefer {
		s.set(v, res)
	}
	if m.C.OnResult != nil {
		m.C.OnResult(ev, res)
	}
	if !isDefer {
		fr.idx++
	}
	return nil
}

func (m *Sim) recursive(c *Ctx, fn *ssa.Function) bool {
	n := 0
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
		n++
	}
	return n > 40
}

// shouldInline: enter functions that can reach something the client cares
// about.
func (m *Sim) shouldInline(fn *ssa.Function) bool {
	if r, ok := m.relMemo[fn]; ok {
		return r
	}
	r := false
	if m.C.Inline != nil {
		if d, ok := m.C.Inline(fn); ok {
			m.relMemo[fn] = d
			return d
		}
	}
	e := m.P.funcEffects(fn)
	if m.C.RelevantCall != nil {
		for n := range e.calls {
			if m.C.RelevantCall(n) {
				r = true
				break
			}
		}
	}
	if !r && m.C.RelevantStore != nil {
		for k := range e.stores {
			if m.C.RelevantStore(k) {
				r = true
				break
			}
		}
	}
	m.relMemo[fn] = r
	return r
}

// opaque models a call that is not entered.
func (m *Sim) opaque(s *State, ev *CallEv, in ssa.CallInstruction, fn *ssa.Function, binds []*Term) *Term {
	fr := s.top()
	sig := ev.Sig
	var T types.Type
	switch sig.Results().Len() {
	case 0:
		T = nil
	case 1:
		T = sig.Results().At(0).Type()
	default:
		T = sig.Results()
	}
	if r := m.pureCall(s, ev, T); r != nil {
		return r
	}
	if !ev.NoHavoc {
		m.havocCall(s, ev, in, fn, binds)
	}
	if T == nil {
		return m.T.None
	}
	id := leafID{ctx: fr.ctx, at: in}
	var args []*Term
	if m.C.Track != nil && m.C.Track(ev.Name) {
		args = ev.Args
		for i, a := range args {
			if a.depth > 30 {
				args = append([]*Term(nil), args...)
				args[i] = m.T.mk(&Term{op: OAny})
			}
		}
	}
	// retire older instance(s): the call term of an earlier iteration may have
	// different arguments
	s.cl["#args"], s.cl["#eargs"] = m.T.Tuple(args...), m.T.Tuple(ev.Args...)
	s.retireAt(id)
	if args != nil {
		args = s.cl["#args"].args
	}
	ev.Args = s.cl["#eargs"].args
	delete(s.cl, "#args")
	delete(s.cl, "#eargs")
	c := m.T.CallT(id, ev.Name, args, T)
	if sig.Results().Len() > 1 {
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			rs = append(rs, m.expand(m.T.Extract(c, i, rt), rt))
		}
		return m.T.Tuple(rs...)
	}
	return m.expand(c, T)
}

// retireAt renames every gen-0 leaf produced at id.at in id.ctx.
func (s *State) retireAt(id leafID) {
	m := s.sim
	if !id.ctx.inLoop {
		if in, ok := id.at.(ssa.Instruction); ok && in.Parent() != nil && !m.info(in.Parent()).inLoop[in.Block()] {
			return
		}
	}
	seen := map[int]bool{}
	var found []*Term
	scan := func(x *Term) {
		for _, l := range x.leafs {
			if seen[l] {
				continue
			}
			seen[l] = true
			lt := m.T.list[l]
			if lt.leaf != nil && lt.leaf.gen == 0 && lt.leaf.ctx == id.ctx && lt.leaf.at == id.at && lt.leaf.tag == id.tag {
				found = append(found, lt)
			}
		}
	}
	s.eachTerm(scan)
	for _, f := range found {
		s.retire(f)
	}
}

func (s *State) eachTerm(f func(*Term)) {
	for _, fr := range s.frames {
		for _, v := range fr.env {
			f(v)
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				f(a)
			}
			if d.fnT != nil {
				f(d.fnT)
			}
		}
	}
	for a, v := range s.mem {
		f(a)
		f(v)
	}
	for _, v := range s.cl {
		f(v)
	}
	for _, v := range s.epoch {
		f(v)
	}
	for k := range s.facts {
		f(k)
	}
}

// noMutate lists packages whose functions do not write through their
// arguments (beyond io.Writers) or call back into the module.
func noMutate(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "strconv.", "errors.", "bytes.Equal", "bytes.TrimSpace", "bytes.Compare", "encoding/hex.", "path/filepath.", "time.", "unicode", "(github.com/aarondl/color", "(*github.com/aarondl/color", "github.com/aarondl/color", "(time.", "crypto/subtle.", "crypto/hmac.Equal", "os.", "(*os.File)", "net/url", "(*net/url", "encoding/json.Marshal", "io/ioutil.", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/slices", "sort.", "github.com/atotto/clipboard", "crypto/sha", "os/exec.LookPath"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (m *Sim) havocCall(s *State, ev *CallEv, in ssa.CallInstruction, fn *ssa.Function, binds []*Term) {
	fr := s.top()
	if fn != nil && m.P.inModule[fn] && fn.Blocks != nil {
		e := m.P.funcEffects(fn)
		for k := range e.stores {
			m.havocKey(s, k, in)
		}
		for _, b := range binds {
			m.havocReach(s, b, in)
		}
		for _, a := range ev.Args {
			if a.op == OClosure {
				for _, b := range a.args {
					m.havocReach(s, b, in)
				}
			}
			if a.op == OAllocAddr {
				m.havocReach(s, a, in)
			}
		}
		return
	}
	if ev.Fn == nil && len(ev.Args) > 0 && in.Common().IsInvoke() {
		// interface method: use VTA module targets
		for _, f := range m.P.dynCallees(in) {
			if m.P.inModule[f] {
				for k := range m.P.funcEffects(f).stores {
					m.havocKey(s, k, in)
				}
			}
		}
	}
	if noMutate(ev.Name) {
		return
	}
	for _, a := range ev.Args {
		m.havocReach(s, a, in)
		if a.op == OClosure || a.op == OFunc {
			f := a.obj.(*ssa.Function)
			for k := range m.P.funcEffects(f).stores {
				m.havocKey(s, k, in)
			}
		}
	}
	_ = fr
}

func (m *Sim) havocKey(s *State, key string, in ssa.Instruction) {
	for a := range s.mem {
		if cellKey(a) == key {
			r := addrRoot(a)
			if r.op == OAllocAddr && strings.HasPrefix(key, "ptr:") {
				continue // a local variable cell; captured ones are havocked through bindings
			}
			delete(s.mem, a)
			if r.op == OAllocAddr || r.op == OMake {
				s.mem[a] = s.leafAt(s.top().ctx, in, fmt.Sprintf("h%d", a.id), deref(a.typ))
			}
		}
	}
	s.bump(key, in)
}

// havocReach forgets the contents of the objects an argument points to.
func (m *Sim) havocReach(s *State, x *Term, in ssa.Instruction) {
	for x.op == OIface || x.op == OConvert || x.op == OSlice {
		x = x.args[0]
	}
	switch x.op {
	case OClosure:
		for _, b := range x.args {
			m.havocReach(s, b, in)
		}
		return
	case OStruct:
		for _, b := range x.args {
			m.havocReach(s, b, in)
		}
		return
	case OAllocAddr, OFieldAddr, OGlobal, OIndexAddr:
	default:
		return
	}
	for a := range s.mem {
		if a == x || addrHasPrefix(a, x) {
			s.mem[a] = s.leafAt(s.top().ctx, in, fmt.Sprintf("h%d", a.id), deref(a.typ))
		}
	}
	if x.op == OFieldAddr || x.op == OGlobal {
		if _, ok := s.mem[x]; !ok {
			s.bump(cellKey(x), in)
		}
	}
}

func addrHasPrefix(a, p *Term) bool {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
		if a == p {
			return true
		}
	}
	return false
}

// pure functions of their arguments: equal arguments give equal results.
var pureFuncs = map[string]bool{
	"bytes.Equal": true, "strings.EqualFold": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true,
	"crypto/hmac.Equal": true, "crypto/subtle.ConstantTimeCompare": true,
	"strings.ToLower": true, "strings.TrimSpace": true, "strings.TrimPrefix": true, "strings.Index": true,
	"path/filepath.FromSlash": true, "path/filepath.Dir": true, "path/filepath.Join": false, "path/filepath.Base": true,
	"encoding/hex.EncodeToString": true, "strings.Join": true, "strings.Split": true, "strings.Fields": true, "bytes.TrimSpace": true,
	"os.IsNotExist": true, "os.IsExist": true,
	"(*net/url.URL).String": true, "strconv.Itoa": true, "strconv.FormatInt": true,
	"crypto/sha256.Sum256": true, "crypto/sha512.Sum512": true,
	"strings.Repeat": true, "strings.ReplaceAll": true, "strings.Count": true,
	"unicode.ToLower": true, "unicode/utf8.RuneLen": true, "bytes.Repeat": true,
	"net.JoinHostPort": true,
}

// pure (value, error) decoders
var pureTuple = map[string]bool{
	"encoding/hex.DecodeString": true, "net/url.Parse": true, "strconv.Atoi": true, "strconv.ParseInt": true,
}

// foldCall evaluates string functions of constants.
func (m *Sim) foldCall(ev *CallEv) *Term {
	var a []string
	for _, x := range ev.Args {
		v, ok := x.strVal()
		if !ok {
			return nil
		}
		a = append(a, v)
	}
	switch {
	case len(a) == 1 && ev.Name == "strings.ToLower":
		return m.T.Str(strings.ToLower(a[0]))
	case len(a) == 1 && ev.Name == "strings.TrimSpace":
		return m.T.Str(strings.TrimSpace(a[0]))
	case len(a) == 2 && ev.Name == "strings.EqualFold":
		return m.T.Bool(strings.EqualFold(a[0], a[1]))
	case len(a) == 2 && ev.Name == "strings.HasPrefix":
		return m.T.Bool(strings.HasPrefix(a[0], a[1]))
	case len(a) == 2 && ev.Name == "strings.Contains":
		return m.T.Bool(strings.Contains(a[0], a[1]))
	case len(a) == 2 && ev.Name == "strings.TrimPrefix":
		return m.T.Str(strings.TrimPrefix(a[0], a[1]))
	}
	return nil
}

func (m *Sim) pureCall(s *State, ev *CallEv, T types.Type) *Term {
	if T == nil {
		return nil
	}
	if pureFuncs[ev.Name] {
		if x := m.foldCall(ev); x != nil {
			return x
		}
		if ev.Name == "bytes.Equal" || ev.Name == "crypto/hmac.Equal" || ev.Name == "strings.EqualFold" {
			a, b := ev.Args[0], ev.Args[1]
			if a == b {
				return m.T.True
			}
			if a.id > b.id {
				a, b = b, a
			}
			return m.T.Pure(ev.Name, T, a, b)
		}
		for _, a := range ev.Args {
			if a.depth > 30 {
				return nil
			}
		}
		return m.expand(m.T.Pure(ev.Name, T, ev.Args...), T)
	}
	if pureTuple[ev.Name] {
		for _, a := range ev.Args {
			if a.depth > 30 {
				return nil
			}
		}
		p := m.T.Pure(ev.Name, T, ev.Args...)
		tup := T.(*types.Tuple)
		var rs []*Term
		for i := 0; i < tup.Len(); i++ {
			rs = append(rs, m.T.Extract(p, i, tup.At(i).Type()))
		}
		return m.T.Tuple(rs...)
	}
	if ev.Name == "errors.New" || ev.Name == "fmt.Errorf" {
		id := leafID{ctx: s.top().ctx, at: ev.Instr}
		s.retireAt(id)
		return m.T.CallT(id, ev.Name, nil, T)
	}
	return nil
}

func (m *Sim) builtin(s *State, name string, in ssa.CallInstruction, args []*Term, c *ssa.CallCommon) *Term {
	var T types.Type
	if v, ok := in.(ssa.Value); ok {
		T = v.Type()
	}
	switch name {
	case "len":
		x := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return m.T.mk(&Term{op: OLen, args: []*Term{x, s.epochOf("map:" + typeKey(c.Args[0].Type().Underlying()))}, typ: types.Typ[types.Int]})
		}
		return m.T.Len(x)
	case "cap":
		return m.T.mk(&Term{op: OCap, args: args, typ: types.Typ[types.Int]})
	case "append":
		base := args[0]
		if len(args) < 2 {
			return base
		}
		el := args[1]
		if el == m.T.Nil {
			return base
		}
		// append(x, a, b): SSA passes a slice of a fresh array
		if el.op == OSlice && el.args[0].op == OAllocAddr {
			if at, ok := deref(el.args[0].typ).Underlying().(*types.Array); ok && at.Len() <= 16 {
				out := []*Term{base}
				okAll := true
				for i := int64(0); i < at.Len(); i++ {
					a := m.T.IndexAddr(el.args[0], m.T.Int(i), types.NewPointer(at.Elem()))
					v, have := s.mem[a]
					if !have {
						if _, isS := at.Elem().Underlying().(*types.Struct); isS {
							v = s.Load(a, at.Elem())
						} else {
							okAll = false
							break
						}
					}
					out = append(out, v)
				}
				if okAll {
					res := m.T.mk(&Term{op: OAppend, args: out, typ: T})
					if m.C.OnAppend != nil {
						m.C.OnAppend(s, res, in)
					}
					return res
				}
			}
		}
		res := m.T.mk(&Term{op: OAppendS, args: []*Term{base, el}, typ: T})
		if m.C.OnAppend != nil {
			m.C.OnAppend(s, res, in)
		}
		return res
	case "copy":
		// contents are not tracked beyond arrays
		if len(args) == 2 {
			m.havocReach(s, args[0], in)
			if m.C.OnCopy != nil {
				m.C.OnCopy(s, args[0], args[1], in)
			}
		}
		return m.T.Leaf(leafID{ctx: s.top().ctx, at: in, tag: "copy"}, T)
	case "delete":
		key := "map:" + typeKey(c.Args[0].Type().Underlying())
		s.bump(key, in)
		if m.C.OnMapUpdate != nil {
			m.C.OnMapUpdate(s, args[0], args[1], m.T.None, in)
		}
		return m.T.None
	case "clear":
		if _, isM := c.Args[0].Type().Underlying().(*types.Map); isM {
			s.bump("map:"+typeKey(c.Args[0].Type().Underlying()), in)
			if m.C.OnMapUpdate != nil {
				m.C.OnMapUpdate(s, args[0], m.T.None, m.T.None, in)
			}
		} else {
			m.havocReach(s, args[0], in)
			if m.C.OnCopy != nil {
				m.C.OnCopy(s, args[0], m.T.None, in)
			}
		}
		return m.T.None
	case "min", "max":
		return s.leafAt(s.top().ctx, in, "", T)
	case "recover":
		return m.T.Nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	if T != nil {
		return s.leafAt(s.top().ctx, in, "", T)
	}
	return m.T.None
}

func (m *Sim) evalEffect(s *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		a, v := s.val(x.Addr), s.val(x.Val)
		if m.C.OnStore != nil {
			m.C.OnStore(s, a, v, x)
		}
		if m.C.WeakStore != nil && m.C.WeakStore(a) {
			s.bump(cellKey(a), x)
		} else {
			s.Store(a, v, x.Val.Type(), x)
		}
	case *ssa.MapUpdate:
		mp, k, v := s.val(x.Map), s.val(x.Key), s.val(x.Value)
		if m.C.OnMapUpdate != nil {
			m.C.OnMapUpdate(s, mp, k, v, x)
		}
		s.bump("map:"+typeKey(x.Map.Type().Underlying()), x)
	case *ssa.Send, *ssa.DebugRef:
	}
}

func (m *Sim) evalValue(s *State, v ssa.Value) {
	fr := s.top()
	T := v.Type()
	in := v.(ssa.Instruction)
	fresh := func(tag string) *Term {
		return m.expand(s.leafAt(fr.ctx, in, tag, T), T)
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		id := leafID{ctx: fr.ctx, at: in}
		a := m.T.Alloc(id, T)
		s.retire(a)
		if ar, ok := deref(T).Underlying().(*types.Array); ok {
			_ = ar
			// array contents: elements default to zero through OZero marker
			if ar.Len() <= 16 {
				for i := int64(0); i < ar.Len(); i++ {
					if _, isS := ar.Elem().Underlying().(*types.Struct); !isS {
						s.mem[m.T.IndexAddr(a, m.T.Int(i), types.NewPointer(ar.Elem()))] = m.zero(ar.Elem())
					} else {
						s.Store(m.T.IndexAddr(a, m.T.Int(i), types.NewPointer(ar.Elem())), m.zero(ar.Elem()), ar.Elem(), in)
					}
				}
			}
		} else {
			s.Store(a, m.zero(deref(T)), deref(T), in)
		}
		s.set(v, a)
	case *ssa.BinOp:
		s.set(v, m.T.Bin(x.Op, s.val(x.X), s.val(x.Y), T))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := s.val(x.X)
			r := s.Load(a, T)
			s.set(v, r)
			if m.C.OnLoad != nil {
				m.C.OnLoad(s, a, r, in)
			}
		case token.NOT:
			s.set(v, m.T.Not(s.val(x.X)))
		case token.SUB:
			o := s.val(x.X)
			if n, ok := o.intVal(); ok {
				s.set(v, m.T.Int(-n))
			} else {
				s.set(v, m.T.mk(&Term{op: ONeg, args: []*Term{o}, typ: T}))
			}
		default:
			s.set(v, fresh(""))
		}
	case *ssa.FieldAddr:
		b := s.val(x.X)
		s.set(v, m.T.FieldAddr(b, x.Field, deref(x.X.Type()), T))
	case *ssa.Field:
		s.set(v, m.expand(m.T.Field(s.val(x.X), x.Field, T), T))
	case *ssa.IndexAddr:
		s.set(v, m.T.IndexAddr(s.val(x.X), s.val(x.Index), T))
	case *ssa.Index:
		if a := s.val(x.X); a.op == OStruct {
			if n, ok := s.val(x.Index).intVal(); ok && n >= 0 && int(n) < len(a.args) {
				s.set(v, a.args[n])
				return
			}
		}
		s.set(v, m.expand(m.T.mk(&Term{op: OIndex, args: []*Term{s.val(x.X), s.val(x.Index)}, typ: T}), T))
	case *ssa.Lookup:
		mp, k := s.val(x.X), s.val(x.Index)
		if isStringType(x.X.Type()) {
			s.set(v, m.T.mk(&Term{op: OIndex, args: []*Term{mp, k}, typ: T}))
			return
		}
		if m.C.OnLookup != nil {
			m.C.OnLookup(s, mp, k, in)
		}
		ep := s.epochOf("map:" + typeKey(x.X.Type().Underlying()))
		et := x.X.Type().Underlying().(*types.Map).Elem()
		r := m.expand(m.T.Lookup(mp, k, ep, et), et)
		if mp.op == OMake && ep.op == ONone {
			// a map made here, and no map of this type was written so far
			r = m.zero(et)
			if x.CommaOk {
				s.set(v, m.T.Tuple(r, m.T.False))
			} else {
				s.set(v, r)
			}
			return
		}
		if x.CommaOk {
			s.set(v, m.T.Tuple(r, m.T.LookupOk(mp, k, ep)))
		} else {
			s.set(v, r)
		}
	case *ssa.Extract:
		s.set(v, m.expand(m.T.Extract(s.val(x.Tuple), x.Index, T), T))
	case *ssa.Slice:
		lo, hi := m.T.None, m.T.None
		if x.Low != nil {
			lo = s.val(x.Low)
		}
		if x.High != nil {
			hi = s.val(x.High)
		}
		out := m.T.Slice(s.val(x.X), lo, hi, T)
		s.set(v, out)
		if m.C.OnSlice != nil {
			m.C.OnSlice(s, s.val(x.X), out, in)
		}
	case *ssa.MakeSlice:
		id := leafID{ctx: fr.ctx, at: in}
		s.retireAt(id)
		s.set(v, m.T.Make(id, T, s.val(x.Len)))
	case *ssa.MakeMap:
		id := leafID{ctx: fr.ctx, at: in}
		s.retireAt(id)
		s.set(v, m.T.Make(id, T, m.T.Zero))
	case *ssa.MakeChan:
		s.set(v, fresh(""))
	case *ssa.MakeClosure:
		var b []*Term
		for _, bv := range x.Bindings {
			b = append(b, s.val(bv))
		}
		s.set(v, m.T.Closure(x.Fn.(*ssa.Function), b))
	case *ssa.MakeInterface:
		s.set(v, m.T.Iface(s.val(x.X), x.X.Type()))
	case *ssa.ChangeInterface:
		s.set(v, s.val(x.X))
	case *ssa.ChangeType:
		o := s.val(x.X)
		if o.op == OStruct {
			o = m.T.Struct(T, o.args)
		}
		s.set(v, o)
	case *ssa.Convert:
		o := s.val(x.X)
		s.set(v, m.convertIn(s, o, x.X.Type(), T))
	case *ssa.MultiConvert:
		s.set(v, fresh(""))
	case *ssa.SliceToArrayPointer:
		s.set(v, fresh(""))
	case *ssa.TypeAssert:
		o := s.val(x.X)
		if o.op == OIface {
			match := types.Identical(o.typ, x.AssertedType)
			if types.IsInterface(x.AssertedType) {
				match = types.Implements(o.typ, x.AssertedType.Underlying().(*types.Interface))
			}
			val := o.args[0]
			if types.IsInterface(x.AssertedType) {
				val = o
			}
			if x.CommaOk {
				if match {
					s.set(v, m.T.Tuple(val, m.T.True))
				} else {
					s.set(v, m.T.Tuple(m.zero(x.AssertedType), m.T.False))
				}
				return
			}
			s.set(v, val)
			return
		}
		val := m.T.mk(&Term{op: OAssert, args: []*Term{o}, name: typeKey(x.AssertedType), typ: x.AssertedType})
		if types.IsInterface(x.AssertedType) {
			val = o
		} else {
			val = m.expand(val, x.AssertedType)
		}
		if x.CommaOk {
			ok := m.T.mk(&Term{op: OAssertOk, args: []*Term{o}, name: typeKey(x.AssertedType), typ: types.Typ[types.Bool]})
			if s.IsNil(o) || o.op == OSentinel {
				ok = m.T.False
			}
			s.set(v, m.T.Tuple(val, ok))
		} else {
			s.set(v, val)
		}
	case *ssa.Range:
		s.set(v, s.val(x.X))
	case *ssa.Next:
		id := leafID{ctx: fr.ctx, at: in}
		s.retireAt(id)
		tup := T.(*types.Tuple)
		ca := m.T.CallT(id, "range", []*Term{s.val(x.Iter)}, T)
		var rs []*Term
		for i := 0; i < tup.Len(); i++ {
			et := tup.At(i).Type()
			if b, ok := et.(*types.Basic); ok && b.Kind() == types.Invalid {
				rs = append(rs, m.T.None)
				continue
			}
			rs = append(rs, m.expand(m.T.Extract(ca, i, et), et))
		}
		s.set(v, m.T.Tuple(rs...))
	case *ssa.Select:
		s.set(v, fresh(""))
	case *ssa.Phi:
		// handled on edges; reaching here means entry without edge
		s.set(v, fresh("phi"))
	default:
		s.set(v, fresh(""))
	}
}

// convertIn also uses what is known on the path: a count that cannot be
// negative keeps its value between signed and unsigned.
func (m *Sim) convertIn(s *State, o *Term, from, to types.Type) *Term {
	r := m.convert(o, from, to)
	if r.op != OConvert || !isIntType(from) || !isIntType(to) || sizeofInt(from) != 8 || sizeofInt(to) != 8 || isUnsigned(from) == isUnsigned(to) {
		return r
	}
	if isUnsigned(to) {
		if s.ProveLE(m.T.Zero, o) {
			return o
		}
		return r
	}
	// unsigned difference of lengths: no wrap, and as small as the first one
	if o.op == OBin && o.tok == token.SUB && o.args[0].op == OLen && s.ProveLE(o.args[1], o.args[0]) {
		return m.T.Bin(token.SUB, o.args[0], o.args[1], to)
	}
	return r
}

func (m *Sim) convert(o *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		if n, ok := o.intVal(); ok {
			if b, okb := to.Underlying().(*types.Basic); okb && fitsInt(n, b.Kind()) {
				return m.T.Const(o.cv, to)
			}
		}
		// widening conversions keep the value
		if sizeofInt(to) > sizeofInt(from) && (isUnsigned(from) || !isUnsigned(to)) || sizeofInt(to) == sizeofInt(from) && isUnsigned(from) == isUnsigned(to) {
			return o
		}
		if sizeofInt(to) == 8 && isUnsigned(to) && o.nonNegInt() {
			return o
		}
		return m.T.mk(&Term{op: OConvert, args: []*Term{o}, name: typeKey(to), typ: to})
	}
	if isStringType(from) && isStringType(to) {
		return o
	}
	if isStringType(to) && isByteSlice(from) && o.op == OConvert && isStringType(o.args[0].typ) && isByteSlice(o.typ) {
		return o.args[0]
	}
	if isByteSlice(to) && isStringType(from) && o.op == OConvert && isByteSlice(o.args[0].typ) {
		// a fresh copy with equal contents
		return m.T.mk(&Term{op: OConvert, args: []*Term{o}, name: typeKey(to), typ: to})
	}
	return m.T.mk(&Term{op: OConvert, args: []*Term{o}, name: typeKey(to), typ: to})
}

func sizeofInt(T types.Type) int {
	switch T.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func fitsInt(n int64, k types.BasicKind) bool {
	switch k {
	case types.Int8:
		return n >= -128 && n <= 127
	case types.Uint8:
		return n >= 0 && n <= 255
	case types.Int16:
		return n >= -32768 && n <= 32767
	case types.Uint16:
		return n >= 0 && n <= 65535
	case types.Int32:
		return n >= -1<<31 && n < 1<<31
	case types.Uint32:
		return n >= 0 && n < 1<<32
	case types.Uint, types.Uint64, types.Uintptr:
		return n >= 0
	}
	return true
}

// concreteLoop reports a back edge on which every loop counter is a known
// small constant and the loop's exit test is decided by those constants: such
// a loop is unrolled instead of widened.
func (m *Sim) concreteLoop(s *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) bool {
	env := map[ssa.Value]*Term{}
	ints := 0
	for i, ph := range phis {
		env[ph] = vals[i]
		if isIntType(ph.Type()) {
			n, ok := vals[i].intVal()
			if !ok || n > 64 || n < -64 {
				return false
			}
			ints++
		}
	}
	if ints == 0 {
		return false
	}
	get := func(v ssa.Value) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		return s.val(v)
	}
	for _, in := range h.Instrs[len(phis):] {
		switch x := in.(type) {
		case *ssa.BinOp:
			env[x] = m.T.Bin(x.Op, get(x.X), get(x.Y), x.Type())
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
				return false
			}
			env[x] = m.T.Len(get(x.Call.Args[0]))
		case *ssa.If:
			c := get(x.Cond)
			return c.isBool(true) || c.isBool(false)
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return false
}
