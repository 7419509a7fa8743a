package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// isEntryMap: a snapshot, or an entry of one.
func (d *dbModel) isEntryMap(T types.Type) bool {
	if types.Identical(T, d.entryMap()) {
		return true
	}
	for _, n := range []string{"txlogs.Entry", "blobformat.Blob"} {
		if t := d.r.P.typ(n); t != nil && types.Identical(T, t) {
			return true
		}
	}
	return false
}

// freshMap: v was made in this function.
func freshMap(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return freshMap(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshMap(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.IsNil()
	}
	return false
}

func (d *dbModel) mapWriters(applies map[*ssa.Function]bool) {
	r := d.r
	ok := map[*ssa.Function]bool{}
	for a := range applies {
		for g := range r.P.reach(a) {
			ok[g] = true
		}
	}
	for _, f := range r.P.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case ssa.CallInstruction:
					if n := calleeName(x.Common()); (n == "delete" || n == "clear") && len(x.Common().Args) > 0 {
						m = x.Common().Args[0]
					}
				}
				if m == nil || !d.isEntryMap(m.Type()) {
					continue
				}
				r.Oblige("map-writers", fnName(f)+" "+r.P.instrPos(in))
				if !ok[f] && !freshMap(m, map[ssa.Value]bool{}) {
					r.Violate("map-writers", fnName(f), r.P.instrPos(in), "a snapshot or an entry of it is changed without a transaction, the log does not know about the change", nil)
				}
			}
		}
	}
	r.Need("map-writers", 3)
}

// reach is the set of module functions reachable from f.
func (p *Prog) reach(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if out[g] || g.Blocks == nil || !p.inModule[g] {
			return
		}
		out[g] = true
		for _, a := range g.AnonFuncs {
			walk(a)
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.callTargets(c) {
						walk(t)
					}
				}
			}
		}
	}
	walk(f)
	return out
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return trimPkg(f.Pkg.Pkg.Path())
}

// callers of f in the module: static and dynamic call sites, nil if its value
// may be called from somewhere unknown.
func (p *Prog) callers(f *ssa.Function) (out []*ssa.Function) {
	n := p.CG.Nodes[f]
	if n == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	for _, e := range n.In {
		g := e.Caller.Func
		if g == nil || seen[g] || !p.inModule[g] {
			continue
		}
		seen[g] = true
		if g.Synthetic != "" {
			out = append(out, p.callers(g)...)
			continue
		}
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// readers follows every database through the program: which of its copies of
// the state are up to date where they are read.
func (d *dbModel) readers() {
	r := d.r
	snap, ver, log := fieldIndex(d.db, "Snapshot"), fieldIndex(d.db, "Version"), fieldIndex(d.db, "Log")
	field := func(a ssa.Value) (int, string) {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok || !types.Identical(deref(fa.X.Type()), d.db) {
			return -1, ""
		}
		p := pathOf(fa.X)
		if al, ok := fa.X.(*ssa.Alloc); ok && al.Heap {
			return fa.Field, "new"
		}
		return fa.Field, p
	}
	reset := func(s *fstate, p string) {
		if s.Has("rs:"+p) && s.Has("rv:"+p) {
			s.Gen("clean:")
		}
	}
	fl := &Flow{P: r.P}
	fl.Scope = func(f *ssa.Function) bool { return pkgOf(f) != "txlogs" }
	fl.Entry = func(*ssa.Function) []string { return []string{"clean:"} }
	fl.External = func(f *ssa.Function) bool {
		return pkgOf(f) == "blobformat" && f.Object() != nil && f.Object().Exported()
	}
	fl.Step = func(s *fstate, in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			f, p := field(x.Addr)
			if p == "new" {
				return false
			}
			zero := false
			if c, ok := x.Val.(*ssa.Const); ok && zeroConst(c) {
				zero = true
			}
			switch f {
			case -1:
				return false
			case snap:
				s.Kill("fresh", p)
				if zero {
					s.Gen("rs:" + p)
				}
				reset(s, p)
			case ver:
				s.Kill("fresh", p)
				if zero {
					s.Gen("rv:" + p)
				}
				reset(s, p)
			case log:
				s.Kill("fresh", p)
				if !s.Has("rs:"+p) || !s.Has("rv:"+p) {
					s.Kill("clean", "")
				}
			}
		case ssa.CallInstruction:
			fn := x.Common().StaticCallee()
			if fn == nil || pkgOf(fn) != "txlogs" {
				return false
			}
			if fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), d.ptr) {
				return true
			}
			p := pathOf(x.Common().Args[0])
			switch fn.Name() {
			case "UpdateSnapshot":
				s.Kill("rs", p)
				s.Kill("rv", p)
				for _, v := range callResult(x, 0) {
					if p != "" {
						s.GenIf(v, 'n', "fresh:"+p)
					}
				}
			case "ResetSnapshot":
				s.Kill("fresh", p)
				if p != "" {
					s.Gen("rs:" + p)
					s.Gen("rv:" + p)
					s.Gen("clean:")
				}
			default:
				if e := r.P.funcEffects(fn); e.stores[string(fieldKeyOf(d.db, snap))] || e.stores[string(fieldKeyOf(d.db, log))] && pkgOf(in.Parent()) == "blobformat" {
					s.Kill("fresh", p)
				}
			}
			return true
		}
		return false
	}
	fl.Solve()
	roots := map[*ssa.Function]bool{}
	fl.Visit(func(f *ssa.Function, s *fstate, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.UnOp:
			if fi, p := field(x.X); fi == snap && x.Op == token.MUL {
				r.Oblige("fresh-read", fnName(f)+" "+r.P.instrPos(in))
				if p == "" || !s.Has("fresh:"+p) {
					r.Violate("fresh-read", fnName(f), r.P.instrPos(in), "the entries are read without UpdateSnapshot having succeeded before, entries that are only in the log yet are missed", nil)
				}
			}
		case *ssa.Store:
			fi, p := field(x.Addr)
			if fi == log && p != "new" {
				r.Oblige("replaced-log", fnName(f)+" "+r.P.instrPos(in))
			}
			if c, ok := x.Val.(*ssa.Const); (fi == snap || fi == ver) && p != "new" && !(ok && zeroConst(c)) {
				r.Violate("replaced-log", "install|"+fnName(f), r.P.instrPos(in), "a snapshot or its version is set from outside the log package", nil)
			}
		case ssa.CallInstruction:
			fn := x.Common().StaticCallee()
			if fn != nil && pkgOf(fn) == "txlogs" && fn.Name() == "UpdateSnapshot" && !s.Has("clean:") {
				r.Violate("replaced-log", "update|"+fnName(f), r.P.instrPos(in), "the snapshot is brought up to date after the log was replaced but the snapshot of the old log was not discarded", nil)
			}
		case *ssa.Return:
			if fl.info[f].ext && !roots[f] && !s.Has("clean:") {
				roots[f] = true
				r.Violate("replaced-log", "exit|"+fnName(f), r.P.instrPos(in), "the log was replaced and the snapshot of the old log is still there when "+fnName(f)+" returns", nil)
			}
		}
	})
	r.Count("functions followed", len(fl.info))
	r.Need("fresh-read", 10)
	r.Need("replaced-log", 2)
}
