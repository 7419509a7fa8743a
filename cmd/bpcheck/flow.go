package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow is an interprocedural forward must-analysis: at each point the set of
// facts that hold on every path there. Facts are "kind:path", a path names a
// value by how the function reaches it ("p0.store.DB"). A fact may hang on a
// value: it holds once that value is known to be nil, true or false, which is
// how "the error was nil" reaches the rest of a function and its callers.
type Flow struct {
	P *Prog
	// Step sees each instruction with the facts before it and changes them.
	// For a call of a module function it is called before the summary of the
	// callee is applied; true means the summary is not to be applied.
	Step func(st *fstate, in ssa.Instruction) bool
	// Edge is called when the facts on a branch edge are known.
	Edge func(st *fstate, cond ssa.Value, val bool)
	// Entry gives the facts assumed when f is entered from outside.
	Entry func(f *ssa.Function) []string
	// Scope limits the functions analysed.
	Scope func(f *ssa.Function) bool
	// External says that f may be called from code that is not analysed.
	External func(f *ssa.Function) bool

	funcs []*ssa.Function
	info  map[*ssa.Function]*flowFn
	work  map[*ssa.Function]bool
	Steps int
}

type condKey struct {
	v    ssa.Value
	kind byte // 'n' nil, 't' true, 'f' false
}

type fset map[string]bool

type fstate struct {
	fl    *Flow
	fn    *flowFn
	facts fset
	cond  map[condKey]fset
	known map[ssa.Value]byte // 'n' nil 'N' non-nil 't' 'f'
	cell  map[ssa.Value]ssa.Value
	final bool
}

type flowSum struct {
	always  fset
	nilErr  fset
	isTrue  fset
	isFalse fset
	kills   fset
	noRet   bool // no return seen yet
}

type flowFn struct {
	fn      *ssa.Function
	entry   fset // nil: not entered yet
	in      map[*ssa.BasicBlock]*fstate
	sum     flowSum
	callers map[*ssa.Function]bool
	entries map[ssa.Instruction]fset
	ext     bool
}

func (a fset) clone() fset {
	b := make(fset, len(a))
	for k := range a {
		b[k] = true
	}
	return b
}

func inter(a, b fset) fset {
	o := fset{}
	for k := range a {
		if b[k] {
			o[k] = true
		}
	}
	return o
}

func union(a, b fset) fset {
	o := a.clone()
	for k := range b {
		o[k] = true
	}
	return o
}

func sameSet(a, b fset) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (s *fstate) clone() *fstate {
	n := &fstate{fl: s.fl, fn: s.fn, facts: s.facts.clone(), cond: map[condKey]fset{}, known: map[ssa.Value]byte{}, cell: map[ssa.Value]ssa.Value{}}
	for k, v := range s.cond {
		n.cond[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.cell {
		n.cell[k] = v
	}
	return n
}

func (s *fstate) equal(t *fstate) bool {
	if !sameSet(s.facts, t.facts) || len(s.cond) != len(t.cond) || len(s.known) != len(t.known) || len(s.cell) != len(t.cell) {
		return false
	}
	for k, v := range s.cond {
		w, ok := t.cond[k]
		if !ok || !sameSet(v, w) {
			return false
		}
	}
	for k, v := range s.known {
		if t.known[k] != v {
			return false
		}
	}
	for k, v := range s.cell {
		if t.cell[k] != v {
			return false
		}
	}
	return true
}

func (s *fstate) join(t *fstate) {
	f := inter(s.facts, t.facts)
	for k, v := range s.cond {
		w, ok := t.cond[k]
		switch {
		case t.implies(k):
			s.cond[k] = union(v, s.facts)
		case !ok:
			delete(s.cond, k)
		default:
			s.cond[k] = inter(union(v, s.facts), union(w, t.facts))
		}
	}
	for k, w := range t.cond {
		if _, ok := s.cond[k]; !ok && s.implies(k) {
			s.cond[k] = union(w, t.facts)
		}
	}
	s.facts = f
	for k, v := range s.known {
		if t.known[k] != v {
			delete(s.known, k)
		}
	}
	for k, v := range s.cell {
		if t.cell[k] != v {
			delete(s.cell, k)
		}
	}
}

func (s *fstate) implies(k condKey) bool {
	v, ok := s.known[k.v]
	if !ok {
		return false
	}
	switch k.kind {
	case 'n':
		return v == 'N'
	case 't':
		return v == 'f'
	case 'f':
		return v == 't'
	}
	return false
}

func (s *fstate) Has(f string) bool { return s.facts[f] }

// HasSub: fact kind:path, or kind:prefix of path.
func (s *fstate) Gen(f string) { s.facts[f] = true }

func (s *fstate) GenIf(v ssa.Value, kind byte, f ...string) {
	k := condKey{v, kind}
	n := fset{}
	for x := range s.cond[k] {
		n[x] = true
	}
	for _, x := range f {
		n[x] = true
	}
	s.cond[k] = n
}

// Kill drops kind:path and everything below; path "" drops the kind.
func (s *fstate) Kill(kind, path string) {
	s.fn.sum.kills[kind+":"+path] = true
	s.drop(kind, path)
}

func (s *fstate) drop(kind, path string) {
	hit := func(f string) bool {
		k, p, _ := strings.Cut(f, ":")
		if kind != "*" && k != kind {
			return false
		}
		if p == "" {
			return path == "" || kind != "*"
		}
		return path == "" || p == path || strings.HasPrefix(p, path+".")
	}
	for f := range s.facts {
		if hit(f) {
			delete(s.facts, f)
		}
	}
	for k, v := range s.cond {
		var n fset
		for f := range v {
			if hit(f) {
				if n == nil {
					n = v.clone()
				}
				delete(n, f)
			}
		}
		if n != nil {
			s.cond[k] = n
		}
	}
}

// result gives the values that stand for result i of a call.
func callResult(c ssa.CallInstruction, i int) (out []ssa.Value) {
	v := c.Value()
	if v == nil {
		return nil
	}
	if _, ok := v.Type().(*types.Tuple); !ok {
		if i == 0 {
			return []ssa.Value{v}
		}
		return nil
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			out = append(out, e)
		}
	}
	return
}

// errResult is the index of the last result if it is an error, else -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && types.Identical(sig.Results().At(n-1).Type(), errType) {
		return n - 1
	}
	return -1
}

func boolResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return i
		}
	}
	return -1
}

// pathOf names a value by how its function reaches it, "" if it cannot.
func pathOf(v ssa.Value) string { return pathOf1(v, 0) }

func pathOf1(v ssa.Value, d int) string {
	if d > 20 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return fmt.Sprintf("fv%d", i)
			}
		}
	case *ssa.Global:
		return "g" + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return pathOf1(x.X, d+1)
		}
		return ""
	case *ssa.FieldAddr:
		if p := pathOf1(x.X, d+1); p != "" {
			st, _ := structUnder(deref(x.X.Type()))
			return p + "." + st.Field(x.Field).Name()
		}
		return ""
	case *ssa.Field:
		if p := pathOf1(x.X, d+1); p != "" {
			st, _ := structUnder(x.X.Type())
			return p + "." + st.Field(x.Field).Name()
		}
		return ""
	case *ssa.ChangeType:
		return pathOf1(x.X, d+1)
	case *ssa.ChangeInterface:
		return pathOf1(x.X, d+1)
	case *ssa.MakeInterface:
		return pathOf1(x.X, d+1)
	case *ssa.Alloc:
		// a copy of a value, made once
		var src ssa.Value
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				if src != nil {
					src = nil
					break
				}
				src = st.Val
			}
		}
		if src != nil {
			if _, ok := src.(*ssa.Const); !ok {
				if p := pathOf1(src, d+1); p != "" {
					return p
				}
			}
		}
		return "l" + x.Name()
	case *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Lookup, *ssa.Slice, *ssa.TypeAssert:
		return "l" + v.Name()
	}
	return ""
}

func rootOf(path string) string {
	r, _, _ := strings.Cut(path, ".")
	return r
}

// toCallee translates a path of the caller into one of the callee.
func toCallee(path string, args []ssa.Value) []string {
	if path == "" || path[0] == 'g' {
		return []string{path}
	}
	var out []string
	for i, a := range args {
		p := pathOf(a)
		if p == "" {
			continue
		}
		if path == p {
			out = append(out, fmt.Sprintf("p%d", i))
		} else if strings.HasPrefix(path, p+".") {
			out = append(out, fmt.Sprintf("p%d%s", i, path[len(p):]))
		}
	}
	return out
}

// toCaller translates a path of the callee; ok is false if it is not the
// caller's to see, and unknown says it may be anything.
func toCaller(path string, args []ssa.Value, mc *ssa.MakeClosure) (p string, ok, unknown bool) {
	if path == "" || path[0] == 'g' {
		return path, true, false
	}
	root := rootOf(path)
	rest := path[len(root):]
	var i int
	switch {
	case root[0] == 'p':
		if n, _ := fmt.Sscanf(root, "p%d", &i); n == 1 && i < len(args) {
			if q := pathOf(args[i]); q != "" {
				return q + rest, true, false
			}
			return "", false, true
		}
	case strings.HasPrefix(root, "fv"):
		if n, _ := fmt.Sscanf(root, "fv%d", &i); n == 1 && mc != nil && i < len(mc.Bindings) {
			if q := pathOf(mc.Bindings[i]); q != "" {
				return q + rest, true, false
			}
		}
		return "", false, true
	}
	return "", false, false
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (fl *Flow) Solve() {
	fl.info = map[*ssa.Function]*flowFn{}
	fl.work = map[*ssa.Function]bool{}
	for _, f := range fl.P.modFuncs() {
		if fl.Scope != nil && !fl.Scope(f) || f.Blocks == nil {
			continue
		}
		fl.funcs = append(fl.funcs, f)
		fi := &flowFn{fn: f, callers: map[*ssa.Function]bool{}, entries: map[ssa.Instruction]fset{}}
		fi.sum = flowSum{kills: fset{}, noRet: true}
		fl.info[f] = fi
	}
	for _, f := range fl.funcs {
		fi := fl.info[f]
		fi.ext = f.Parent() != nil || f.Name() == "main" || f.Name() == "init" || len(fl.P.callers(f)) == 0 || fl.addrTaken(f)
		if fl.External != nil && fl.External(f) {
			fi.ext = true
		}
		if fi.ext {
			fi.entry = fset{}
			if fl.Entry != nil {
				for _, x := range fl.Entry(f) {
					fi.entry[x] = true
				}
			}
		}
		fl.work[f] = true
	}
	for rounds := 0; len(fl.work) > 0 && rounds < 400; rounds++ {
		var l []*ssa.Function
		for _, f := range fl.funcs {
			if fl.work[f] {
				l = append(l, f)
			}
		}
		fl.work = map[*ssa.Function]bool{}
		for _, f := range l {
			if fl.info[f].entry != nil {
				fl.analyse(fl.info[f])
			}
		}
	}
	if len(fl.work) > 0 {
		panic("dataflow did not converge")
	}
}

var takenMemo map[*ssa.Function]bool

func (fl *Flow) addrTaken(f *ssa.Function) bool {
	if takenMemo == nil {
		takenMemo = map[*ssa.Function]bool{}
		for _, g := range fl.P.modFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var skip ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						skip = c.Common().Value
					}
					n := 0
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok {
							if *op == skip && n == 0 {
								n++
								continue
							}
							takenMemo[h] = true
							if h.Origin() != nil {
								takenMemo[h.Origin()] = true
							}
						}
					}
				}
			}
		}
		for _, g := range fl.P.modFuncs() {
			if g.Pkg == nil {
				continue
			}
			if in := g.Pkg.Func("init"); in != nil && !fl.P.inModule[in] {
				for _, b := range in.Blocks {
					for _, i := range b.Instrs {
						for _, op := range i.Operands(nil) {
							if h, ok := (*op).(*ssa.Function); ok {
								takenMemo[h] = true
							}
						}
					}
				}
			}
		}
	}
	return takenMemo[f]
}

func (fl *Flow) enter(callee *flowFn, site ssa.Instruction, facts fset, from *ssa.Function) {
	callee.callers[from] = true
	if callee.ext {
		return
	}
	if old, ok := callee.entries[site]; ok && sameSet(old, facts) {
		return
	}
	callee.entries[site] = facts
	var e fset
	for _, f := range callee.entries {
		if e == nil {
			e = f.clone()
		} else {
			e = inter(e, f)
		}
	}
	if callee.entry == nil || !sameSet(e, callee.entry) {
		callee.entry = e
		fl.work[callee.fn] = true
	}
}

func (fl *Flow) analyse(fi *flowFn) {
	old := fi.sum
	fi.sum = flowSum{kills: fset{}, noRet: true}
	fi.in = map[*ssa.BasicBlock]*fstate{}
	st := &fstate{fl: fl, fn: fi, facts: fi.entry.clone(), cond: map[condKey]fset{}, known: map[ssa.Value]byte{}, cell: map[ssa.Value]ssa.Value{}}
	fi.in[fi.fn.Blocks[0]] = st
	out := map[[2]*ssa.BasicBlock]*fstate{}
	wl := []*ssa.BasicBlock{fi.fn.Blocks[0]}
	queued := map[*ssa.BasicBlock]bool{wl[0]: true}
	for n := 0; len(wl) > 0; n++ {
		if n > 20000 {
			panic("dataflow does not settle in " + fnName(fi.fn))
		}
		// lowest block first
		sort.Slice(wl, func(i, j int) bool { return wl[i].Index < wl[j].Index })
		b := wl[0]
		wl = wl[1:]
		queued[b] = false
		fl.Steps++
		s := fi.in[b].clone()
		if !fl.block(s, b) {
			continue
		}
		for i, succ := range b.Succs {
			e := fl.edge(s, b, succ, i)
			if e == nil {
				continue
			}
			k := [2]*ssa.BasicBlock{b, succ}
			if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] && i == 1 {
				if o := out[k]; o != nil {
					e.join(o)
				}
			}
			out[k] = e
			// join over the predecessors seen so far
			var j *fstate
			var preds []*ssa.BasicBlock
			for _, p := range succ.Preds {
				if out[[2]*ssa.BasicBlock{p, succ}] != nil {
					preds = append(preds, p)
				}
			}
			j = fl.joinPreds(out, preds, succ)
			if cur := fi.in[succ]; cur == nil || !cur.equal(j) {
				fi.in[succ] = j
				if !queued[succ] {
					queued[succ] = true
					wl = append(wl, succ)
				}
			}
		}
	}
	if !sumEqual(old, fi.sum) {
		for c := range fi.callers {
			fl.work[c] = true
		}
	}
}

func sumEqual(a, b flowSum) bool {
	return a.noRet == b.noRet && sameSet(a.always, b.always) && sameSet(a.nilErr, b.nilErr) && sameSet(a.isTrue, b.isTrue) && sameSet(a.isFalse, b.isFalse) && sameSet(a.kills, b.kills)
}

func (fl *Flow) joinPreds(out map[[2]*ssa.BasicBlock]*fstate, preds []*ssa.BasicBlock, b *ssa.BasicBlock) *fstate {
	var j *fstate
	type ph struct {
		x *ssa.Phi
		c map[byte]fset // nil entry: anything
		k byte
	}
	var phis []*ph
	for _, in := range b.Instrs {
		if x, ok := in.(*ssa.Phi); ok {
			phis = append(phis, &ph{x: x})
		}
	}
	for n, p := range preds {
		e := out[[2]*ssa.BasicBlock{p, b}]
		for _, q := range phis {
			var v ssa.Value
			for i, pp := range b.Preds {
				if pp == p {
					v = q.x.Edges[i]
				}
			}
			c := map[byte]fset{}
			kn := e.know(v)
			for _, k := range []byte{'n', 't', 'f'} {
				if kn != 0 && contradicts(kn, k) {
					continue // never: anything holds
				}
				c[k] = union(e.facts, e.cond[condKey{v, k}])
			}
			if n == 0 {
				q.c, q.k = c, kn
				continue
			}
			for _, k := range []byte{'n', 't', 'f'} {
				a, aok := q.c[k]
				d, dok := c[k]
				switch {
				case aok && dok:
					q.c[k] = inter(a, d)
				case dok:
					q.c[k] = d
				}
			}
			if q.k != kn {
				q.k = 0
			}
		}
		if j == nil {
			j = e.clone()
		} else {
			j.join(e)
		}
	}
	for _, q := range phis {
		for k, f := range q.c {
			n := fset{}
			for x := range f {
				if !j.facts[x] {
					n[x] = true
				}
			}
			if len(n) > 0 {
				j.cond[condKey{q.x, k}] = n
			} else {
				delete(j.cond, condKey{q.x, k})
			}
		}
		if q.k != 0 {
			j.known[q.x] = q.k
		} else {
			delete(j.known, q.x)
		}
	}
	return j
}

func contradicts(known, kind byte) bool {
	switch kind {
	case 'n':
		return known == 'N'
	case 't':
		return known == 'f'
	case 'f':
		return known == 't'
	}
	return false
}

// know: what is known about a value here.
func (s *fstate) know(v ssa.Value) byte {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return 'n'
		}
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 't'
			}
			return 'f'
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function:
		return 'N'
	case *ssa.Call:
		if alwaysNonNil(calleeName(x.Common())) {
			return 'N'
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && types.Identical(deref(g.Type()), errType) {
				return 'N' // a sentinel error
			}
		}
	}
	return s.known[v]
}

func alwaysNonNil(n string) bool {
	switch n {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

// block is false if control does not come out of it.
func (fl *Flow) block(s *fstate, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		fl.instr(s, in)
		if leaves(in) {
			return false
		}
	}
	return true
}

// leaves: the call ends the program.
func leaves(in ssa.Instruction) bool {
	if c, ok := in.(*ssa.Call); ok {
		switch calleeName(c.Common()) {
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit":
			return true
		}
	}
	return false
}

func (s *fstate) forget(v ssa.Value) {
	delete(s.known, v)
	for a, c := range s.cell {
		if c == v {
			delete(s.cell, a)
		}
	}
	for _, k := range []byte{'n', 't', 'f'} {
		delete(s.cond, condKey{v, k})
	}
}

func (fl *Flow) instr(s *fstate, in ssa.Instruction) {
	skip := false
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Extract:
	case ssa.CallInstruction:
		if v := x.Value(); v != nil {
			s.forget(v)
			if r := v.Referrers(); r != nil {
				for _, e := range *r {
					if e, ok := e.(*ssa.Extract); ok {
						s.forget(e)
					}
				}
			}
		}
	case ssa.Value:
		s.forget(x)
	}
	if fl.Step != nil {
		skip = fl.Step(s, in)
	}
	switch x := in.(type) {
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok {
			s.cell[a] = x.Val
		}
		if p := pathOf(x.Addr); p != "" && !s.unpathed(x.Addr) {
			s.Kill("*", p)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c := s.cell[x.X]; c != nil {
				for _, k := range []byte{'n', 't', 'f'} {
					if f, ok := s.cond[condKey{c, k}]; ok {
						s.cond[condKey{x, k}] = f
					}
				}
				if k := s.know(c); k != 0 {
					s.known[x] = k
				}
			}
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Defer); ok {
			return
		}
		for a := range s.cell {
			if al, ok := a.(*ssa.Alloc); ok && al.Heap {
				delete(s.cell, a)
			}
		}
		if !skip {
			fl.call(s, x)
		}
	case *ssa.Return:
		fl.ret(s, x)
	}
}

// unpathed: writing this address does not change what other paths mean (a
// local variable's path is the value it was given).
func (s *fstate) unpathed(a ssa.Value) bool {
	_, ok := a.(*ssa.Alloc)
	return ok
}

func (fl *Flow) targets(x ssa.CallInstruction) (out []*flowFn, open bool) {
	ts := fl.P.callTargets(x)
	if len(ts) == 0 {
		return nil, true
	}
	for _, t := range ts {
		fi := fl.info[t]
		if fi == nil {
			open = true
			continue
		}
		out = append(out, fi)
	}
	return
}

func (fl *Flow) call(s *fstate, x ssa.CallInstruction) {
	ts, open := fl.targets(x)
	if len(ts) == 0 {
		return
	}
	args := callArgs(x.Common())
	var mc *ssa.MakeClosure
	if m, ok := x.Common().Value.(*ssa.MakeClosure); ok {
		mc = m
	}
	var sum *flowSum
	var kills fset = fset{}
	for _, fi := range ts {
		e := fset{}
		for f := range s.facts {
			k, p, _ := strings.Cut(f, ":")
			for _, q := range toCallee(p, args) {
				e[k+":"+q] = true
			}
		}
		fl.enter(fi, x, e, s.fn.fn)
		for k := range fi.sum.kills {
			kills[k] = true
		}
		if fi.sum.noRet {
			continue
		}
		if sum == nil {
			c := fi.sum
			sum = &c
			continue
		}
		n := flowSum{always: inter(sum.always, fi.sum.always), nilErr: inter(sum.nilErr, fi.sum.nilErr), isTrue: inter(sum.isTrue, fi.sum.isTrue), isFalse: inter(sum.isFalse, fi.sum.isFalse)}
		sum = &n
	}
	if _, ok := x.(*ssa.Go); ok {
		sum = nil
	}
	for k := range kills {
		kind, p, _ := strings.Cut(k, ":")
		q, ok, unknown := toCaller(p, args, mc)
		if ok {
			s.Kill(kind, q)
		} else if unknown {
			if kind == "*" {
				// a store through a pointer this function cannot name: what
				// it names elsewhere is not affected by it
				continue
			}
			s.Kill(kind, "")
		}
	}
	if sum == nil || open {
		return
	}
	up := func(in fset) fset {
		o := fset{}
		for f := range in {
			kind, p, _ := strings.Cut(f, ":")
			if q, ok, _ := toCaller(p, args, mc); ok {
				o[kind+":"+q] = true
			}
		}
		return o
	}
	for f := range up(sum.always) {
		s.facts[f] = true
	}
	sig := x.Common().Signature()
	if i := errResult(sig); i >= 0 {
		for _, v := range callResult(x, i) {
			s.cond[condKey{v, 'n'}] = union(s.cond[condKey{v, 'n'}], up(sum.nilErr))
		}
	}
	if i := boolResult(sig); i >= 0 {
		for _, v := range callResult(x, i) {
			s.cond[condKey{v, 't'}] = union(s.cond[condKey{v, 't'}], up(sum.isTrue))
			s.cond[condKey{v, 'f'}] = union(s.cond[condKey{v, 'f'}], up(sum.isFalse))
		}
	}
}

func (fl *Flow) ret(s *fstate, x *ssa.Return) {
	sum := &s.fn.sum
	keep := func(f fset) fset {
		o := fset{}
		for k := range f {
			_, p, _ := strings.Cut(k, ":")
			if p == "" || p[0] == 'p' || p[0] == 'g' || strings.HasPrefix(p, "fv") {
				o[k] = true
			}
		}
		return o
	}
	merge := func(dst *fset, f fset, first bool) {
		f = keep(f)
		if *dst == nil {
			*dst = f
		} else {
			*dst = inter(*dst, f)
		}
	}
	sum.noRet = false
	merge(&sum.always, s.facts, false)
	sig := x.Parent().Signature
	under := func(i int, k byte, dst *fset) {
		if i < 0 || i >= len(x.Results) {
			return
		}
		v := x.Results[i]
		if kn := s.know(v); kn != 0 && contradicts(kn, k) {
			return
		}
		merge(dst, union(s.facts, s.cond[condKey{v, k}]), false)
	}
	under(errResult(sig), 'n', &sum.nilErr)
	under(boolResult(sig), 't', &sum.isTrue)
	under(boolResult(sig), 'f', &sum.isFalse)
}

func (fl *Flow) edge(s *fstate, b, succ *ssa.BasicBlock, i int) *fstate {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return s.clone()
	}
	e := s.clone()
	if !e.assume(iff.Cond, i == 0) {
		return nil
	}
	if fl.Edge != nil {
		fl.Edge(e, iff.Cond, i == 0)
	}
	return e
}

func (e *fstate) assume(c ssa.Value, val bool) bool {
	learn := func(v ssa.Value, k byte) bool {
		kn := e.know(v)
		if kn != 0 && kn != k {
			return false
		}
		e.known[v] = k
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if c := e.cell[u.X]; c != nil {
				if _, isc := c.(*ssa.Const); !isc {
					e.known[c] = k
				}
			}
		}
		for f := range e.cond[condKey{v, k}] {
			e.facts[f] = true
		}
		return true
	}
	if k := e.know(c); k == 't' && !val || k == 'f' && val {
		return false
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.assume(x.X, !val)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == val
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, ok := p[1].(*ssa.Const); ok && k.IsNil() {
					if eq {
						return learn(p[0], 'n')
					}
					return learn(p[0], 'N')
				}
			}
			if eq {
				// equal to a value that is not nil
				for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if e.know(p[1]) == 'N' {
						return learn(p[0], 'N')
					}
				}
			}
		}
	}
	if val {
		return learn(c, 't')
	}
	return learn(c, 'f')
}

// Visit replays the solution: see gets every reachable instruction with the
// facts before it.
func (fl *Flow) Visit(see func(f *ssa.Function, st *fstate, in ssa.Instruction)) {
	for _, f := range fl.funcs {
		fi := fl.info[f]
		if fi.entry == nil {
			continue
		}
		keep := fi.sum
		for _, b := range f.Blocks {
			st := fi.in[b]
			if st == nil {
				continue
			}
			s := st.clone()
			for _, in := range b.Instrs {
				see(f, s, in)
				fl.instr(s, in)
				if leaves(in) {
					break
				}
			}
		}
		fi.sum = keep
	}
}
