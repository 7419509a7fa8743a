package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// replCommand is one entry of the command table of the interactive program.
type replCommand struct {
	name     string
	run      *ssa.Function
	readOnly bool
	pos      string
}

// commands reads the command table out of the package initializer: every
// store of a function into the Run field of a command, with the ReadOnly field
// stored next to it and the name it is filed under.
func (p *Prog) commands() (out []replCommand) {
	ct := p.typ("main.replCmd")
	if ct == nil {
		return nil
	}
	ri, oi := fieldIndex(ct, "Run"), fieldIndex(ct, "ReadOnly")
	if ri < 0 {
		return nil
	}
	type ent struct {
		run *ssa.Function
		ro  bool
		in  ssa.Instruction
		key string
	}
	for _, f := range p.Funcs {
		if pkgOf(f) != "main" {
			continue
		}
		cells := map[ssa.Value]*ent{}
		get := func(a ssa.Value) *ent {
			if cells[a] == nil {
				cells[a] = &ent{}
			}
			return cells[a]
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), ct) {
					continue
				}
				switch fa.Field {
				case ri:
					e := get(fa.X)
					e.in = in
					e.run = funcOf(st.Val)
				case oi:
					if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "true" {
						get(fa.X).ro = true
					} else if !ok {
						get(fa.X).ro = true // not a constant: treat as possibly read-only
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if ld, ok := mu.Value.(*ssa.UnOp); ok {
					if e := cells[ld.X]; e != nil {
						if c, ok := mu.Key.(*ssa.Const); ok && c.Value != nil {
							e.key = strings.Trim(c.Value.ExactString(), `"`)
						}
					}
				}
			}
		}
		for _, e := range cells {
			if e.run != nil {
				out = append(out, replCommand{name: e.key, run: e.run, readOnly: e.ro, pos: p.instrPos(e.in)})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].name != out[j].name {
			return out[i].name < out[j].name
		}
		return out[i].run.Name() < out[j].run.Name()
	})
	return out
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

// mainCallees are the functions main calls, directly or through functions
// that, like it, only run the parts of a session one after another.
func (p *Prog) mainCallees() (out []*ssa.Function) {
	mf := p.fn("main.main")
	if mf == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || !p.inModule[f] || seen[f] {
					continue
				}
				seen[f] = true
				if p.driver(f) {
					walk(f)
				} else {
					out = append(out, f)
				}
			}
		}
	}
	walk(mf)
	return out
}

// driver: f opens or saves the file and runs the commands.
func (p *Prog) driver(f *ssa.Function) bool {
	if p.driverMemo == nil {
		p.driverMemo = map[*ssa.Function]bool{}
	}
	v, ok := p.driverMemo[f]
	if ok {
		return v
	}
	if pkgOf(f) == "main" && f.Parent() == nil {
		runs, files := false, false
		for g := range p.staticReach(f) {
			runs = runs || runsCommand(p, g)
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						n := calleeName(c.Common())
						files = files || n == "crypt.Decrypt" || n == "crypt.Encrypt"
					}
				}
			}
		}
		v = runs && files
	}
	p.driverMemo[f] = v
	return v
}

// callOf: x is component i of the result of an opaque call of name.
func resOf(x *Term, name string) (call *Term, i int) {
	if x == nil {
		return nil, -1
	}
	i = 0
	if x.op == OExtract {
		i = x.idx
		x = x.args[0]
	}
	if (x.op == OCall || x.op == OPure) && x.name == name {
		return x, i
	}
	return nil, -1
}

// rootOf peels fields, elements and loads off a value.
func baseOf(x *Term) *Term {
	for x != nil {
		switch x.op {
		case OField, OFieldAddr, OIndexAddr, OIndex, OLoad, OSlice, OExtract:
			x = x.args[0]
		default:
			return x
		}
	}
	return nil
}

// bytesOf: x is the conversion of a string to bytes; returns the string.
func bytesOf(x *Term) *Term {
	if x != nil && x.op == OConvert && isStringType(x.args[0].typ) {
		return x.args[0]
	}
	return nil
}
