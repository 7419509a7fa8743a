package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a calling context: a chain of inlined call sites.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	inLoop bool
}

func (c *Ctx) String() string {
	var p []string
	for x := c; x != nil; x = x.parent {
		p = append([]string{fnName(x.fn)}, p...)
	}
	return strings.Join(p, " > ")
}

type deferred struct {
	instr *ssa.Defer
	fnT   *Term
	name  string
	fn    *ssa.Function
	args  []*Term
}

type frame struct {
	fn      *ssa.Function
	ctx     *Ctx
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	env     map[ssa.Value]*Term
	defers  []deferred
	site    ssa.Instruction // call/rundefers instr in the parent frame
	isDefer bool
	loopMem map[*ssa.BasicBlock]map[*Term]*Term
	hdrSeen map[*ssa.BasicBlock]int
}

func (f *frame) clone() *frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	if f.loopMem != nil {
		g.loopMem = make(map[*ssa.BasicBlock]map[*Term]*Term, len(f.loopMem))
		for k, v := range f.loopMem {
			g.loopMem[k] = v // immutable snapshots
		}
	}
	return &g
}

type trail struct {
	prev *trail
	msg  string
	pos  string
}

// State is one abstract execution state.
type State struct {
	sim    *Sim
	frames []*frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	epoch  map[string]*Term
	cl     map[string]*Term // client typestate
	tr     *trail
	steps  int
	start  int // instruction index to resume at after fork
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.epoch = make(map[string]*Term, len(s.epoch))
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	n.cl = make(map[string]*Term, len(s.cl))
	for k, v := range s.cl {
		n.cl[k] = v
	}
	return &n
}

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

// CallEv describes one call for the client.
type CallEv struct {
	S     *State
	Name  string
	Fn    *ssa.Function // module or external ssa function; nil for invoke/unknown
	Args  []*Term       // receiver first
	Instr ssa.Instruction
	Sig   *types.Signature
	Ctx   *Ctx
	// outcomes
	Result  *Term // if set, replaces the call
	Kill    bool  // path ends
	NoHavoc bool
}

// Client is a property automaton run over the simulation.
type Client struct {
	Name string
	// Track: calls to these names keep their arguments in the result term.
	Track func(name string) bool
	// Inline decides whether a module function is entered. nil: by relevance.
	Inline func(fn *ssa.Function) (bool, bool) // (decide, decided)
	// Relevant marks events that make a function worth entering.
	RelevantCall  func(name string) bool
	RelevantStore func(key string) bool
	OnCall        func(ev *CallEv)
	OnResult      func(ev *CallEv, res *Term) // after an opaque call's result is set
	OnEnter       func(s *State, fn *ssa.Function, args []*Term, site ssa.Instruction)
	OnReturn      func(s *State, fn *ssa.Function, res []*Term, site ssa.Instruction) // inlined callee returns (frame still on stack)
	OnStore       func(s *State, addr, val *Term, in ssa.Instruction)
	OnLoad        func(s *State, addr, val *Term, in ssa.Instruction)
	OnMapUpdate   func(s *State, m, k, v *Term, in ssa.Instruction)
	OnLookup      func(s *State, m, k *Term, in ssa.Instruction)
	OnBranch      func(s *State, cond *Term, taken bool, in ssa.Instruction)
	OnInstr       func(s *State, in ssa.Instruction)
	OnExit        func(s *State, res []*Term, in ssa.Instruction)
	OnPanic       func(s *State, in ssa.Instruction, val *Term)
	OnOsExit      func(s *State, code *Term, in ssa.Instruction)
	OnHeader      func(s *State, h *ssa.BasicBlock) // at every arrival at a loop header, after widening
	OnBackEdge    func(s *State, header *ssa.BasicBlock)
	OnAppend      func(s *State, out *Term, in ssa.Instruction) // out is the append term
	OnSlice       func(s *State, x, out *Term, in ssa.Instruction)
	OnCopy        func(s *State, dst, src *Term, in ssa.Instruction)
	OnWiden       func(s *State, leaf *Term, header *ssa.BasicBlock, vals ...*Term)
	Houdini       bool // infer linear loop invariants
	DropFrames    bool // forget what only returned frames can refer to
	ElemsOf       bool // reading back an element just appended gives its value
	KeepFacts     bool
	Coarse        bool                     // forget data where paths meet
	WeakStore     func(addr *Term) bool    // only remember that something of that kind was written
	Facts         func(f *Term) bool       // which conditions are worth remembering
	MayCl         func(prefix string) bool // typestate prefixes that hold if any instance has them
}

// Sim runs a client from a root function.
type Sim struct {
	P  *Prog
	T  *Terms
	C  *Client
	nv map[string]*Ctx

	visited    map[string]bool
	States     int
	Paths      int
	Inlined    map[*ssa.Function]int
	CallSites  map[string]int
	Budget     int
	Exceeded   bool
	Unresolved map[string]bool

	fninfo      map[*ssa.Function]*fnInfo
	relMemo     map[*ssa.Function]bool
	hou         map[string]*houdini
	houDropped  int
	houUsed     map[string]bool
	entMemo     map[entKey]bool
	consMemo    map[uint64][]Lin
	condBlocks  map[*ssa.BasicBlock][]*ssa.BasicBlock
	loopMod     map[*ssa.BasicBlock]map[string]bool
	restart     bool
	proving     map[*Term]bool
	Bind        func(i int, t *Term) *Term // a parameter of the root that is fixed
	AxiomNonNeg func(a *Term) bool
	AxiomFacts  func(s *State, a *Term) []Lin
}

func newSim(p *Prog, c *Client) *Sim {
	return &Sim{P: p, T: newTerms(), C: c, nv: map[string]*Ctx{}, visited: map[string]bool{}, Inlined: map[*ssa.Function]int{}, CallSites: map[string]int{}, Budget: 400000, fninfo: map[*ssa.Function]*fnInfo{}, relMemo: map[*ssa.Function]bool{}, Unresolved: map[string]bool{}, hou: map[string]*houdini{}, houUsed: map[string]bool{}, entMemo: map[entKey]bool{}, consMemo: map[uint64][]Lin{}, loopMod: map[*ssa.BasicBlock]map[string]bool{}}
}

type fnInfo struct {
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	inLoop  map[*ssa.BasicBlock]bool
	headers map[*ssa.BasicBlock]bool
	after   map[ssa.Instruction]map[ssa.Value]bool
}

func isLocalValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (m *Sim) info(f *ssa.Function) *fnInfo {
	if i, ok := m.fninfo[f]; ok {
		return i
	}
	fi := &fnInfo{liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, inLoop: map[*ssa.BasicBlock]bool{}, headers: map[*ssa.BasicBlock]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	m.fninfo[f] = fi
	// reachability for loops
	reach := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		r := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if r[x] {
				continue
			}
			r[x] = true
			st = append(st, x.Succs...)
		}
		reach[b] = r
		if r[b] {
			fi.inLoop[b] = true
		}
	}
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				fi.headers[b] = true
			}
		}
	}
	// liveness
	changed := true
	for _, b := range f.Blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	for changed {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := m.liveOut(fi, b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if isLocalValue(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				changed = true
			}
		}
	}
	return fi
}

func (m *Sim) liveOut(fi *fnInfo, b *ssa.BasicBlock) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range fi.liveIn[s] {
			live[v] = true
		}
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
				break
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			// all edges from b (there can be two to the same block)
			for k, p := range s.Preds {
				if p == b && isLocalValue(ph.Edges[k]) {
					live[ph.Edges[k]] = true
				}
			}
			_ = pi
		}
	}
	return live
}

// liveAfter is the set of values live right after instruction in.
func (m *Sim) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	f := in.Parent()
	fi := m.info(f)
	if r, ok := fi.after[in]; ok {
		return r
	}
	b := in.Block()
	live := m.liveOut(fi, b)
	for j := len(b.Instrs) - 1; j >= 0 && b.Instrs[j] != in; j-- {
		x := b.Instrs[j]
		if v, ok := x.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range x.Operands(nil) {
			if isLocalValue(*op) {
				live[*op] = true
			}
		}
	}
	fi.after[in] = live
	return live
}

func (m *Sim) newCtx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	k := fmt.Sprintf("%d|%d|%d", pid, m.T.objID(site), m.T.objID(fn))
	if c, ok := m.nv[k]; ok {
		return c
	}
	c := &Ctx{id: len(m.nv) + 1, parent: parent, site: site, fn: fn}
	if parent != nil {
		c.inLoop = parent.inLoop
		if site != nil && m.info(site.Parent()).inLoop[site.Block()] {
			c.inLoop = true
		}
	}
	m.nv[k] = c
	return c
}

// Run explores every abstract path from fn.
func (m *Sim) Run(fn *ssa.Function, init func(s *State, params []*Term)) {
	for try := 0; try < 300; try++ {
		m.restart = false
		m.visited = map[string]bool{}
		m.States, m.Paths = 0, 0
		m.runOnce(fn, init)
		if !m.restart {
			return
		}
		if debugStates > 0 {
			fmt.Fprintf(os.Stderr, "== restart %d after %d states\n", try, m.States)
		}
	}
	m.Exceeded = true
}

func (m *Sim) runOnce(fn *ssa.Function, init func(s *State, params []*Term)) {
	s := &State{sim: m, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, epoch: map[string]*Term{}, cl: map[string]*Term{}}
	ctx := m.newCtx(nil, nil, fn)
	fr := &frame{fn: fn, ctx: ctx, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}}
	var params []*Term
	for i, p := range fn.Params {
		t := m.expand(m.T.Param(i, fn, p.Type()), p.Type())
		if m.Bind != nil {
			t = m.Bind(i, t)
		}
		fr.env[p] = t
		params = append(params, t)
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = m.T.mk(&Term{op: OParam, idx: 1000 + i, obj: fn, typ: fv.Type(), name: fv.Name()})
	}
	s.frames = []*frame{fr}
	m.Inlined[fn]++
	if init != nil {
		init(s, params)
	}
	if m.C.OnEnter != nil {
		m.C.OnEnter(s, fn, params, nil)
	}
	work := []*State{s}
	for len(work) > 0 && !m.restart {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		m.States++
		if debugStates > 0 && m.States%debugStates == 0 {
			m.debugDump(cur)
		}
		if m.States > m.Budget {
			m.Exceeded = true
			return
		}
		next := m.step(cur)
		work = append(work, next...)
	}
}

var debugStates, _ = strconv.Atoi(os.Getenv("BP_DEBUG"))

func (m *Sim) debugDump(s *State) {
	fr := s.top()
	fmt.Fprintf(os.Stderr, "== %d states, %d paths at %s block %d\n", m.States, m.Paths, fr.ctx, fr.blk.Index)
	for f, v := range s.facts {
		fmt.Fprintf(os.Stderr, "  fact %v %s\n", v, f)
	}
	for f, v := range s.cl {
		fmt.Fprintf(os.Stderr, "  cl %s = %s\n", f, v)
	}
	for f, v := range s.mem {
		fmt.Fprintf(os.Stderr, "  mem %s = %s\n", f, v)
	}
	for f, v := range s.epoch {
		fmt.Fprintf(os.Stderr, "  epoch %s = %s\n", f, v)
	}
}

// expand turns an opaque term of struct type into a struct of field terms.
func (m *Sim) expand(x *Term, T types.Type) *Term {
	if T == nil {
		return x
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok || x.op == OStruct {
		return x
	}
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		ft := st.Field(i).Type()
		fs[i] = m.expand(m.T.Field(x, i, ft), ft)
	}
	return m.T.Struct(T, fs)
}

func (m *Sim) zero(T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.T.False
		case u.Info()&types.IsString != 0:
			return m.T.Str("")
		case u.Info()&types.IsInteger != 0:
			return m.T.Zero
		}
		return m.T.mk(&Term{op: OZero, typ: T, name: typeKey(T)})
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = m.zero(u.Field(i).Type())
		}
		return m.T.Struct(T, fs)
	case *types.Array:
		return m.T.mk(&Term{op: OZero, typ: T, name: typeKey(T)})
	}
	return m.T.Nil
}

// cellKey is the havoc unit of an address term.
func cellKey(a *Term) string {
	switch a.op {
	case OFieldAddr:
		return string(a.obj.(fieldKey))
	case OIndexAddr:
		return "elem:" + typeKey(deref(a.typ))
	case OGlobal:
		return "global:" + trimMod(a.obj.(*ssa.Global).String())
	}
	if a.typ != nil {
		return "ptr:" + typeKey(deref(a.typ))
	}
	return "ptr:?"
}

func addrRoot(a *Term) *Term {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
	}
	return a
}

func (s *State) epochOf(key string) *Term {
	if e, ok := s.epoch[key]; ok {
		return e
	}
	return s.sim.T.None
}

// Load reads memory.
func (s *State) Load(addr *Term, T types.Type) *Term {
	m := s.sim
	if st, ok := T.Underlying().(*types.Struct); ok {
		if v, ok := s.mem[addr]; ok {
			return v
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			ft := st.Field(i).Type()
			fs[i] = s.Load(m.T.FieldAddr(addr, i, T, types.NewPointer(ft)), ft)
		}
		return m.T.Struct(T, fs)
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if at, ok := T.Underlying().(*types.Array); ok && at.Len() <= 8 {
		fs := make([]*Term, at.Len())
		known := at.Len() > 0
		for i := range fs {
			fs[i] = s.mem[m.T.IndexAddr(addr, m.T.Int(int64(i)), types.NewPointer(at.Elem()))]
			known = known && fs[i] != nil
		}
		if known {
			return m.T.Struct(T, fs)
		}
	}
	if addr.op == OIndexAddr {
		if v := s.mem[addr.args[0]]; v != nil && v.op == OStruct {
			if n, ok := addr.args[1].intVal(); ok && n >= 0 && int(n) < len(v.args) {
				return v.args[n]
			}
		}
	}
	if addr.op == OGlobal {
		if v := m.globalValue(addr.obj.(*ssa.Global), 0); v != nil {
			return v
		}
	}
	if x := s.appended(addr); m.C.ElemsOf && x != nil {
		return x
	}
	if addr.op == OIndexAddr {
		base := addrRoot(addr)
		if base.op == OZero {
			return m.zero(T)
		}
	}
	return m.T.Load(addr, s.epochOf(cellKey(addr)), T)
}

// appended: addr is (a field of) an element that was just appended and not
// written since.
func (s *State) appended(addr *Term) *Term {
	switch addr.op {
	case OFieldAddr:
		x := s.appended(addr.args[0])
		if x == nil || x.op != OStruct || addr.idx >= len(x.args) {
			return nil
		}
		if s.epochOf(cellKey(addr)).op != ONone {
			return nil
		}
		return x.args[addr.idx]
	case OIndexAddr:
		ap := addr.args[0]
		if ap.op != OAppend || s.epochOf(cellKey(addr)).op != ONone {
			return nil
		}
		for i, x := range ap.args[1:] {
			if s.eqInt(addr.args[1], s.sim.T.addConst(s.sim.T.Len(ap.args[0]), int64(i), intT)) {
				return x
			}
		}
	}
	return nil
}

// globalValue resolves package variables that are assigned exactly once.
func (m *Sim) globalValue(g *ssa.Global, d int) *Term {
	if d > 5 {
		return nil
	}
	T := deref(g.Type())
	inMod := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	isErr := types.Identical(T, types.Universe.Lookup("error").Type())
	if !inMod {
		if isErr {
			return m.T.mk(&Term{op: OSentinel, name: trimMod(g.String()), typ: T})
		}
		return nil
	}
	gi := m.P.globals[g]
	if gi == nil || gi.initVal == nil || m.P.globalEscapes(g) {
		if gi != nil && len(gi.stores) == 0 && !m.P.globalEscapes(g) {
			if _, ok := T.Underlying().(*types.Basic); ok {
				return m.zero(T)
			}
		}
		return nil
	}
	switch v := gi.initVal.(type) {
	case *ssa.Const:
		return m.constTerm(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if og, ok := v.X.(*ssa.Global); ok {
				return m.globalValue(og, d+1)
			}
		}
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "errors.New", "fmt.Errorf":
			return m.T.mk(&Term{op: OSentinel, name: trimMod(g.String()), typ: T})
		}
	}
	return nil
}

func (m *Sim) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if isNilable(c.Type()) {
			return m.T.Nil
		}
		return m.zero(c.Type())
	}
	return m.T.Const(c.Value, c.Type())
}

func isNilable(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		b := T.Underlying().(*types.Basic)
		return b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil
	}
	return false
}

// mayAlias is a cheap alias test between two distinct address terms.
func mayAlias(a, b *Term) bool {
	if cellKey(a) != cellKey(b) {
		return false
	}
	ra, rb := addrRoot(a), addrRoot(b)
	fresh := func(x *Term) bool { return x.op == OAllocAddr || x.op == OMake }
	if ra != rb {
		if fresh(ra) && !rb.contains(ra) || fresh(rb) && !ra.contains(rb) {
			// a fresh object is only reachable through terms that mention it,
			// unless it was stored and reloaded as an opaque value; loads of
			// tracked cells return the stored term itself.
			return false
		}
		return true
	}
	if a.op == OFieldAddr && b.op == OFieldAddr && a.args[0] == b.args[0] {
		return false // same key, same base would be same term
	}
	if a.op == OIndexAddr && b.op == OIndexAddr && a.args[0] == b.args[0] {
		x, ok1 := a.args[1].intVal()
		y, ok2 := b.args[1].intVal()
		if ok1 && ok2 && x != y {
			return false
		}
		// i vs i+c
		return true
	}
	return true
}

// Store writes memory with a strong update on addr and kills may-aliases.
func (s *State) Store(addr, val *Term, T types.Type, in ssa.Instruction) {
	m := s.sim
	if st, ok := T.Underlying().(*types.Struct); ok {
		v := m.expand(val, T)
		if v.op == OStruct {
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				s.Store(m.T.FieldAddr(addr, i, T, types.NewPointer(ft)), v.args[i], ft, in)
			}
			return
		}
	}
	root := addrRoot(addr)
	if root.op != OAllocAddr && root.op != OMake {
		key := cellKey(addr)
		for a := range s.mem {
			if a != addr && mayAlias(a, addr) {
				delete(s.mem, a)
			}
		}
		s.bump(key, in)
	} else if addr.op == OIndexAddr {
		for a := range s.mem {
			if a != addr && a.op == OIndexAddr && mayAlias(a, addr) {
				delete(s.mem, a)
			}
		}
		if _, ok := addr.args[1].intVal(); !ok {
			s.bump(cellKey(addr), in)
		}
	}
	s.mem[addr] = val
}

func (s *State) bump(key string, in ssa.Instruction) {
	fr := s.top()
	s.epoch[key] = s.leafAt(fr.ctx, in, "ep:"+key, nil)
}

// leafAt creates the leaf for (ctx, at), renaming an older instance of it.
func (s *State) leafAt(ctx *Ctx, at any, tag string, T types.Type) *Term {
	id := leafID{ctx: ctx, at: at, tag: tag}
	l := s.sim.T.Leaf(id, T)
	s.retire(l)
	return l
}

// retire renames gen-0 leaf l to gen 1 wherever it still occurs.
func (s *State) retire(l *Term) {
	if l.leaf == nil || l.leaf.gen != 0 {
		return
	}
	if !s.occurs(l) {
		return
	}
	m := s.sim
	old := *l
	nl := *l.leaf
	nl.gen = 1
	old.leaf = &nl
	old.leafs = nil
	g1 := m.T.mk(&old)
	// facts on the previous gen-1 instance conflate iterations: drop them
	for f := range s.facts {
		if f.hasLeaf(g1.id) {
			delete(s.facts, f)
		}
	}
	// facts on the instance becoming gen 1 are dropped as well: after the
	// renaming the term stands for every earlier instance
	for f := range s.facts {
		if f.hasLeaf(l.id) {
			delete(s.facts, f)
		}
	}
	had := s.occurs(g1)
	s.substitute(map[int]*Term{l.id: g1})
	s.renameKeys(l, g1, had)
}

// clTerm is the term a typestate key "prefix:ID" is about.
func (s *State) clTerm(k string) (prefix string, t *Term) {
	i := strings.LastIndexByte(k, ':')
	if i < 0 {
		return "", nil
	}
	n, err := strconv.Atoi(k[i+1:])
	if err != nil || n < 0 || n >= len(s.sim.T.list) {
		return "", nil
	}
	return k[:i+1], s.sim.T.list[n]
}

// renameKeys moves the typestate of l to the term standing for its earlier
// instances. Must-facts survive only if they hold for all of them, facts
// under a MayCl prefix if they hold for any.
func (s *State) renameKeys(l, g1 *Term, had bool) {
	type kv struct {
		p string
		t *Term
		v *Term
	}
	var old, cur []kv
	for k, v := range s.cl {
		p, t := s.clTerm(k)
		if t == nil {
			continue
		}
		if t.hasLeaf(l.id) {
			cur = append(cur, kv{p, t, v})
			delete(s.cl, k)
		} else if t.hasLeaf(g1.id) {
			old = append(old, kv{p, t, v})
			delete(s.cl, k)
		}
	}
	if len(old)+len(cur) == 0 {
		return
	}
	memo := map[int]*Term{}
	sub := map[int]*Term{l.id: g1}
	now := map[string]*Term{}
	for _, x := range cur {
		now[x.p+strconv.Itoa(s.sim.T.Subst(x.t, sub, memo).id)] = x.v
	}
	hadOld := map[string]bool{}
	for _, x := range old {
		k := x.p + strconv.Itoa(x.t.id)
		hadOld[k] = true
		may := s.sim.C.MayCl != nil && s.sim.C.MayCl(x.p)
		if v, ok := now[k]; may || ok && v == x.v {
			s.cl[k] = x.v
		}
	}
	for k, v := range now {
		i := strings.LastIndexByte(k, ':') + 1
		may := s.sim.C.MayCl != nil && s.sim.C.MayCl(k[:i])
		if may && !hadOld[k] || !may && !hadOld[k] && !had {
			s.cl[k] = v
		}
	}
}

func (s *State) substitute(sub map[int]*Term) {
	m := s.sim
	memo := map[int]*Term{}
	f := func(x *Term) *Term { return m.T.Subst(x, sub, memo) }
	for _, fr := range s.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = f(a)
			}
			d.args = na
			if d.fnT != nil {
				d.fnT = f(d.fnT)
			}
		}
	}
	nm := make(map[*Term]*Term, len(s.mem))
	for a, v := range s.mem {
		nm[f(a)] = f(v)
	}
	s.mem = nm
	for k, v := range s.cl {
		s.cl[k] = f(v)
	}
	for k, v := range s.epoch {
		s.epoch[k] = f(v)
	}
	nf := make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		nk := f(k)
		if nk.op == ONot {
			nf[nk.args[0]] = !v
		} else if nk.op != OConst {
			nf[nk] = v
		}
	}
	s.facts = nf
}

func (s *State) occurs(l *Term) bool {
	for _, fr := range s.frames {
		for _, v := range fr.env {
			if v.hasLeaf(l.id) {
				return true
			}
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				if a.hasLeaf(l.id) {
					return true
				}
			}
			if d.fnT != nil && d.fnT.hasLeaf(l.id) {
				return true
			}
		}
	}
	for a, v := range s.mem {
		if a.hasLeaf(l.id) || v.hasLeaf(l.id) {
			return true
		}
	}
	for k, v := range s.cl {
		if v.hasLeaf(l.id) {
			return true
		}
		if _, t := s.clTerm(k); t != nil && t.hasLeaf(l.id) {
			return true
		}
	}
	for _, v := range s.epoch {
		if v.hasLeaf(l.id) {
			return true
		}
	}
	for f := range s.facts {
		if f.hasLeaf(l.id) {
			return true
		}
	}
	return false
}

func (s *State) note(in ssa.Instruction, format string, a ...any) {
	s.tr = &trail{prev: s.tr, msg: fmt.Sprintf(format, a...), pos: s.sim.P.instrPos(in)}
}

// Trail renders the recent decisions on the path.
func (s *State) Trail(max int) []string {
	var out []string
	for t := s.tr; t != nil && len(out) < max; t = t.prev {
		out = append(out, t.pos+": "+t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// gc drops environment entries that are dead, unreachable allocation cells
// and facts about values nobody can mention again.
func (s *State) gc() {
	live := map[int]bool{}
	addT := func(x *Term) {
		for _, l := range x.leafs {
			live[l] = true
		}
	}
	for _, fr := range s.frames {
		for _, v := range fr.env {
			addT(v)
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				addT(a)
			}
			if d.fnT != nil {
				addT(d.fnT)
			}
		}
	}
	for _, v := range s.cl {
		addT(v)
	}
	for _, v := range s.epoch {
		addT(v)
	}
	// memory reachable from non-alloc roots or live allocs, to fixpoint
	kept := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for a, v := range s.mem {
			if kept[a] {
				continue
			}
			root := addrRoot(a)
			ok := true
			if root.leaf != nil {
				ok = live[root.id]
			} else {
				for _, l := range root.leafs {
					if !live[l] {
						ok = false
						break
					}
				}
			}
			if ok {
				kept[a] = true
				changed = true
				addT(v)
				addT(a)
			}
		}
	}
	for a := range s.mem {
		if !kept[a] {
			delete(s.mem, a)
		}
	}
	if s.sim.C.KeepFacts {
		return
	}
	for f := range s.facts {
		for _, l := range f.leafs {
			if !live[l] {
				delete(s.facts, f)
				break
			}
		}
	}
	// epochs nobody refers to and that are older than everything keep the
	// state distinct for no reason; they are kept (sound), renaming makes
	// their number finite.
}

func (s *State) key() string {
	var b strings.Builder
	for _, fr := range s.frames {
		pv := -1
		_ = pv
		fmt.Fprintf(&b, "F%d.%d.%d{", fr.ctx.id, fr.blk.Index, fr.idx)
		ks := make([]string, 0, len(fr.env))
		for k, v := range fr.env {
			ks = append(ks, strconv.Itoa(s.sim.T.objID(k))+"="+strconv.Itoa(v.id))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		b.WriteString("}")
		for _, d := range fr.defers {
			fmt.Fprintf(&b, "D%d", s.sim.T.objID(d.instr))
			for _, a := range d.args {
				fmt.Fprintf(&b, ".%d", a.id)
			}
		}
	}
	var ms []string
	for a, v := range s.mem {
		ms = append(ms, strconv.Itoa(a.id)+">"+strconv.Itoa(v.id))
	}
	sort.Strings(ms)
	b.WriteString("M" + strings.Join(ms, ","))
	ms = ms[:0]
	for f, v := range s.facts {
		ms = append(ms, strconv.Itoa(f.id)+":"+strconv.FormatBool(v))
	}
	sort.Strings(ms)
	b.WriteString("P" + strings.Join(ms, ","))
	ms = ms[:0]
	for k, v := range s.cl {
		ms = append(ms, fmt.Sprintf("%s:%d", k, v.id))
	}
	sort.Strings(ms)
	b.WriteString("C" + strings.Join(ms, ","))
	ms = ms[:0]
	for k, v := range s.epoch {
		ms = append(ms, fmt.Sprintf("%s:%d", k, v.id))
	}
	sort.Strings(ms)
	b.WriteString("E" + strings.Join(ms, ","))
	return b.String()
}

// Decide evaluates a boolean term under the facts.
func (s *State) Decide(c *Term) (bool, bool) {
	if c.op == ONot {
		v, ok := s.Decide(c.args[0])
		return !v, ok
	}
	if c.isBool(true) {
		return true, true
	}
	if c.isBool(false) {
		return false, true
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	if c.op == OBin && c.tok == token.EQL {
		a, b := c.args[0], c.args[1]
		if v, ok := s.eqVia(a, b); ok {
			return v, true
		}
		if v, ok := s.eqVia(b, a); ok {
			return v, true
		}
		T := s.sim.T
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x, y := p[0], p[1]
			// len(x)==0 when x==nil ; x!=nil when len(x)!=0
			if y == T.Zero && x.op == OLen {
				if v, ok := s.facts[T.Eq(x.args[0], T.Nil)]; ok && v {
					return true, true
				}
			}
			if y == T.Nil {
				if v, ok := s.facts[T.Eq(T.Len(x), T.Zero)]; ok && !v && x.typ != nil {
					if _, isS := x.typ.Underlying().(*types.Slice); isS {
						return false, true
					}
				}
			}
		}
	}
	if c.op == OBin && (c.tok == token.EQL || c.tok == token.LSS) && isIntTermPair(c.args[0], c.args[1]) {
		if s.sim.C.Houdini || len(s.facts) < 40 {
			return s.linDecide(c)
		}
	}
	return false, false
}

func isIntTermPair(a, b *Term) bool {
	f := func(x *Term) bool {
		if x.op == OConst {
			_, ok := x.intVal()
			return ok
		}
		return x.op == OLen || x.op == OCap || isIntType(x.typ)
	}
	return f(a) && f(b)
}

// eqVia uses known equalities of a to decide a==b.
func (s *State) eqVia(a, b *Term) (bool, bool) {
	for f, v := range s.facts {
		if !v || f.op != OBin || f.tok != token.EQL {
			continue
		}
		var o *Term
		if f.args[0] == a {
			o = f.args[1]
		} else if f.args[1] == a {
			o = f.args[0]
		} else {
			continue
		}
		e := s.sim.T.Eq(o, b)
		if e.op == OConst {
			return e.isBool(true), true
		}
		if w, ok := s.facts[e]; ok && e.op != ONot {
			return w, true
		}
	}
	return false, false
}

// Assume adds a fact; false if it contradicts what is known.
func (s *State) Assume(c *Term, val bool) bool {
	for c.op == ONot {
		c = c.args[0]
		val = !val
	}
	if v, ok := s.Decide(c); ok {
		return v == val
	}
	if s.sim.C.Facts == nil || s.sim.C.Facts(c) {
		s.facts[c] = val
	}
	return true
}

// Known reports whether c is known to be val.
func (s *State) Known(c *Term, val bool) bool {
	v, ok := s.Decide(c)
	return ok && v == val
}

// MustNil / MustNonNil
func (s *State) IsNil(x *Term) bool  { return s.Known(s.sim.T.Eq(x, s.sim.T.Nil), true) }
func (s *State) NonNil(x *Term) bool { return s.Known(s.sim.T.Eq(x, s.sim.T.Nil), false) }
