package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// prov finds where values come from, across functions and ignoring order: a
// parameter comes from the arguments of every caller, a variable or field from
// everything ever stored there. A leaf is a value it does not look behind.
type prov struct {
	p *Prog
	// leaf ends the search at v; nil: only at values nothing is known about
	leaf func(v ssa.Value) bool
	// fields: look behind loads of struct fields
	fields bool
	// through: also look behind argument i of a call by name
	through map[string][]int
	seen    map[ssa.Value]bool
	Out     []ssa.Value
	// caller restricts the callers a parameter is followed to
	caller func(f *ssa.Function) bool
	stores map[string][]ssa.Value
}

func (p *Prog) sources(v ssa.Value, opt prov) []ssa.Value {
	opt.p, opt.seen = p, map[ssa.Value]bool{}
	opt.walk(v)
	return opt.Out
}

func (q *prov) out(v ssa.Value) { q.Out = append(q.Out, v) }

func (q *prov) walk(v ssa.Value) {
	if q.seen[v] {
		return
	}
	q.seen[v] = true
	if q.leaf != nil && q.leaf(v) {
		q.out(v)
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			q.walk(e)
		}
	case *ssa.ChangeType:
		q.walk(x.X)
	case *ssa.Convert:
		q.walk(x.X)
	case *ssa.ChangeInterface:
		q.walk(x.X)
	case *ssa.MakeInterface:
		q.walk(x.X)
	case *ssa.TypeAssert:
		q.walk(x.X)
	case *ssa.Slice:
		q.walk(x.X)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); ok {
			q.result(x, x.Tuple.(*ssa.Call), x.Index)
		} else if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			q.walk(ta.X)
		} else {
			q.out(v)
		}
	case *ssa.Call:
		q.result(x, x, 0)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			q.out(v)
			return
		}
		q.cell(x, x.X)
	case *ssa.Field:
		if q.fields {
			q.field(x, x.X.Type(), x.Field)
			return
		}
		q.out(v)
	case *ssa.Parameter:
		q.param(x)
	case *ssa.FreeVar:
		q.freeVar(x)
	case *ssa.Alloc:
		if _, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			q.array(x)
			return
		}
		q.out(v)
	default:
		q.out(v)
	}
}

// cell: what is loaded from addr.
func (q *prov) cell(load ssa.Value, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		if !q.allocStores(a) {
			q.out(load)
		}
	case *ssa.FreeVar:
		for _, b := range bindings(a) {
			q.cell(load, b)
		}
	case *ssa.FieldAddr:
		if q.fields {
			q.field(load, deref(a.X.Type()), a.Field)
			return
		}
		if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
			q.fieldOf(load, al, a.Field)
			return
		}
		q.out(load)
	case *ssa.Global:
		n := 0
		for _, f := range q.p.modFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == a {
						n++
						q.walk(st.Val)
					}
				}
			}
		}
		if n == 0 || q.p.globalEscapes(a) {
			q.out(load)
		}
	default:
		q.out(load)
	}
}

func (q *prov) fieldOf(load ssa.Value, al *ssa.Alloc, field int) {
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && x.Field == field {
					if st.Addr == x {
						q.walk(st.Val)
					} else {
						q.out(load)
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			q.out(load)
		}
	}
}

// allocStores follows what is stored in a variable; false if it is also
// changed in ways not followed.
func (q *prov) allocStores(a ssa.Value) bool {
	ok := true
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == a {
				q.walk(x.Val)
			} else {
				ok = false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == a {
					fv := x.Fn.(*ssa.Function).FreeVars[i]
					if !q.seen[fv] {
						q.seen[fv] = true
						ok = q.allocStores(fv) && ok
					}
				}
			}
		default:
			ok = false
		}
	}
	return ok
}

// array: the elements of a composite literal.
func (q *prov) array(a *ssa.Alloc) {
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
					q.walk(st.Val)
				}
			}
		}
	}
}

func (q *prov) field(load ssa.Value, T types.Type, field int) {
	n := 0
	for _, f := range q.p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == field && types.Identical(deref(fa.X.Type()), T) {
						n++
						q.walk(st.Val)
					}
				}
			}
		}
	}
	if n == 0 {
		q.out(load)
	}
}

func (q *prov) result(v ssa.Value, c *ssa.Call, i int) {
	if idx, ok := q.through[calleeName(c.Common())]; ok {
		args := c.Common().Args
		for _, k := range idx {
			if k < len(args) {
				q.walk(args[k])
			}
		}
		return
	}
	fs := q.p.callTargets(c)
	n := 0
	for _, f := range fs {
		if !q.p.inModule[f] || f.Blocks == nil {
			n = 0
			break
		}
		n++
	}
	if n == 0 {
		q.out(v)
		return
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				q.walk(ret.Results[i])
			}
		}
	}
}

func (q *prov) param(x *ssa.Parameter) {
	f := x.Parent()
	k := -1
	for i, y := range f.Params {
		if y == x {
			k = i
		}
	}
	n := 0
	for _, e := range q.p.inEdges(f) {
		if q.caller != nil && !q.caller(e.Parent()) {
			continue
		}
		c := e.Common()
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		// calls of wrappers pass the same arguments
		if k < len(args) && len(args) == len(f.Params) {
			n++
			q.walk(args[k])
		} else {
			q.out(x)
		}
	}
	if n == 0 {
		q.out(x)
	}
}

func (q *prov) freeVar(x *ssa.FreeVar) {
	bs := bindings(x)
	if len(bs) == 0 {
		q.out(x)
	}
	for _, b := range bs {
		q.walk(b)
	}
}

// bindings: what closures are made with for x.
func bindings(x *ssa.FreeVar) (out []ssa.Value) {
	f := x.Parent()
	k := -1
	for i, y := range f.FreeVars {
		if y == x {
			k = i
		}
	}
	if f.Parent() == nil || k < 0 {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				out = append(out, mc.Bindings[k])
			}
		}
	}
	return out
}

// inEdges are the calls of f in the module, through wrappers too.
func (p *Prog) inEdges(f *ssa.Function) (out []ssa.CallInstruction) {
	seen := map[*ssa.Function]bool{}
	sites := map[ssa.CallInstruction]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		n := p.CG.Nodes[g]
		if n == nil {
			return
		}
		for _, e := range n.In {
			c := e.Caller.Func
			if c == nil || e.Site == nil {
				continue
			}
			if c.Synthetic != "" && c.Pkg == nil {
				walk(c)
				continue
			}
			if p.inModule[c] && !sites[e.Site] {
				sites[e.Site] = true
				out = append(out, e.Site)
			}
		}
	}
	walk(f)
	return out
}
