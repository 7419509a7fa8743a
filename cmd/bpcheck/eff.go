package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// effects is the transitive effect summary of a function.
type effects struct {
	stores map[string]bool // fieldKeys, "elem:T", "map:T", "global:x"
	calls  map[string]bool // names of every callee reached (module and external)
	done   bool
}

// funcEffects summarises what f may store to and call, transitively through
// the call graph and the closures it creates.
func (p *Prog) funcEffects(f *ssa.Function) *effects {
	if e, ok := p.effMemo[f]; ok && e.done {
		return e
	}
	// iterate over reachable set (no need for SCC condensation at this size)
	reach := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if reach[g] {
			return
		}
		reach[g] = true
		if g.Blocks == nil || !p.inModule[g] {
			return
		}
		for _, a := range g.AnonFuncs {
			walk(a)
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.callTargets(c) {
						walk(t)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(f)
	e := &effects{stores: map[string]bool{}, calls: map[string]bool{}, done: true}
	for g := range reach {
		if g != f {
			e.calls[fnName(g)] = true
		}
		if !p.inModule[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					for _, k := range storeKeys(x.Addr, x.Val.Type()) {
						e.stores[k] = true
					}
				case *ssa.MapUpdate:
					e.stores["map:"+typeKey(x.Map.Type().Underlying())] = true
				case ssa.CallInstruction:
					n := calleeName(x.Common())
					if n != "" {
						e.calls[n] = true
					}
					if n == "delete" {
						e.stores["map:"+typeKey(x.Common().Args[0].Type().Underlying())] = true
					}
					if n == "copy" {
						if s, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok {
							e.stores["elem:"+typeKey(s.Elem())] = true
						}
					}
				}
			}
		}
	}
	p.effMemo[f] = e
	return e
}

// callTargets resolves the module functions a call may run.
func (p *Prog) callTargets(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return p.dynCallees(c)
}

// storeKeys names the memory a store may change.
func storeKeys(addr ssa.Value, vt types.Type) []string {
	if st, ok := vt.Underlying().(*types.Struct); ok {
		// storing a whole struct stores each field
		var out []string
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, string(fieldKeyOf(vt, i)))
			if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				out = append(out, storeKeys(nil, st.Field(i).Type())...)
			}
		}
		if addr == nil {
			return out
		}
		return append(out, addrKey(addr))
	}
	if addr == nil {
		return nil
	}
	return []string{addrKey(addr)}
}

func addrKey(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return string(fieldKeyOf(deref(a.X.Type()), a.Field))
	case *ssa.IndexAddr:
		return "elem:" + typeKey(deref(a.Type()))
	case *ssa.Global:
		return "global:" + trimMod(a.String())
	}
	return "ptr:" + typeKey(deref(addr.Type()))
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
