package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Title: "success is only reported when everything was saved", Run: runC21,
		Explanation: "main is executed abstractly with everything it calls failing or not; at every way out that reports success no error may be pending, and the file must have been saved after the last part of the program that can change it."})
	register(&Check{ID: "C27", Title: "nothing copied stays on the clipboard", Run: runC27,
		Explanation: "main is executed abstractly; on every way out after the part of the program that copies to the clipboard, the clipboard was cleared or clearing was turned off, and no function within ends the program on its own."})
}

var storeMutators = []string{"(*txlogs.DB).Set", "(*txlogs.DB).Add", "(*txlogs.DB).Delete", "(*txlogs.DB).DeleteKey", "txlogs.Merge"}

// staticReach are the module functions f gets to by direct calls.
func (p *Prog) staticReach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || g.Blocks == nil || !p.inModule[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil {
						walk(t)
					}
				}
			}
		}
	}
	walk(f)
	return seen
}

func (p *Prog) staticCalls(f *ssa.Function, ok func(n string, c ssa.CallInstruction) bool) bool {
	for g := range p.staticReach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, is := in.(ssa.CallInstruction); is && ok(calleeName(c.Common()), c) {
					return true
				}
			}
		}
	}
	return false
}

func ends(n string) bool {
	return n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || n == "syscall.Exit" || n == "(*log.Logger).Fatal" || n == "(*log.Logger).Fatalf"
}

func clipWrite(n string) bool {
	return n == "github.com/atotto/clipboard.WriteAll"
}

func clears(c ssa.CallInstruction) bool {
	k, ok := c.Common().Args[0].(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == `""`
}

// mainModel executes main down to the functions that open, change and save the
// file.
type mainModel struct {
	p     *Prog
	saver map[*ssa.Function]bool
}

func newMainModel(p *Prog) *mainModel {
	mm := &mainModel{p: p, saver: map[*ssa.Function]bool{}}
	for _, f := range p.modFuncs() {
		if pkgOf(f) == "main" && f.Parent() == nil && f.Name() != "main" && mm.saves(f) {
			mm.saver[f] = true
		}
	}
	return mm
}

// saves: f encrypts and writes what there is, and does not change it.
func (mm *mainModel) saves(f *ssa.Function) bool {
	p := mm.p
	return p.staticCalls(f, func(n string, _ ssa.CallInstruction) bool { return n == "crypt.Encrypt" }) &&
		p.staticCalls(f, func(n string, _ ssa.CallInstruction) bool { return fileWriters[n] }) &&
		!p.reachesAny(f, storeMutators...)
}

func (mm *mainModel) inline(f *ssa.Function) (bool, bool) {
	p := mm.p
	if pkgOf(f) != "main" || mm.saver[f] {
		return false, true
	}
	for g := range p.staticReach(f) {
		if mm.saver[g] {
			return true, true
		}
	}
	if p.reachesAny(f, "crypt.Decrypt", "crypt.Encrypt") {
		return false, true
	}
	return p.staticCalls(f, func(n string, c ssa.CallInstruction) bool {
		return ends(n) || clipWrite(n) && clears(c)
	}), true
}

// modErr is the error a call of a function of the program returned.
func (mm *mainModel) modErr(m *Sim, ev *CallEv, res *Term) *Term {
	c, ok := ev.Instr.(*ssa.Call)
	if !ok {
		return nil
	}
	f := c.Common().StaticCallee()
	if f == nil || !mm.p.inModule[f] {
		return nil
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
		return nil
	}
	if rs.Len() == 1 {
		return res
	}
	return errOf(m.T, res, rs.Len()-1)
}

func runC21(r *Run) {
	r.Rule("status: where main reports success, nothing it called has failed")
	r.Rule("saved: where main reports success, the file was saved after everything that could have changed it")
	p := r.P
	mf := r.Anchor("main.main")
	if mf == nil {
		return
	}
	mm := newMainModel(p)
	if len(mm.saver) == 0 {
		r.Violate("anchor", "save", "-", "no function encrypts the file and writes it", nil)
		return
	}
	cl := &Client{Name: "exit", KeepFacts: true, Inline: mm.inline}
	cl.Track = func(string) bool { return true }
	m := newSim(p, cl)
	T := m.T
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		if e := mm.modErr(m, ev, res); e != nil {
			s.cl["err:"+strconv.Itoa(e.id)] = e
		}
		if ev.Fn == nil || !p.inModule[ev.Fn] {
			return
		}
		switch {
		case mm.saver[ev.Fn], fnName(ev.Fn) == "crypt.Encrypt":
			delete(s.cl, "changed")
			delete(s.cl, "changed-in")
		case p.reachesAny(ev.Fn, storeMutators...):
			s.cl["changed"] = T.Str(fnName(ev.Fn))
		}
	}
	if ui := p.typ("main.uiContext"); ui != nil && fieldIndex(ui, "readOnly") >= 0 {
		cl.OnLoad = seeMode(ui)
	}
	done := func(s *State, in ssa.Instruction) {
		where := p.instrPos(in)
		r.Oblige("status", where)
		for _, k := range sortedKeys(s.cl) {
			if strings.HasPrefix(k, "err:") && !s.IsNil(s.cl[k]) {
				e := s.cl[k]
				r.Violate("status", callOf(e).name, where, "success is reported although "+callOf(e).name+" may have failed", s.Trail(14))
			}
		}
		// what is opened read-only is not saved (C06)
		if c := s.cl["changed"]; c != nil && !(s.cl["ui"] != nil && s.Known(s.cl["ui"], true)) {
			n, _ := c.strVal()
			r.Violate("saved", n, where, "success is reported although what "+n+" changed was not saved", s.Trail(14))
		}
		r.Oblige("saved", where)
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) { done(s, in) }
	cl.OnOsExit = func(s *State, code *Term, in ssa.Instruction) {
		if code == nil || code.op == ONone {
			return
		}
		if n, ok := code.intVal(); !ok || n == 0 {
			done(s, in)
		}
	}
	m.Run(mf, nil)
	r.absorb(m, "main")
	r.Need("status", 2)
	r.Need("saved", 2)
}

func runC27(r *Run) {
	r.Rule("cleared: every way out of main after something could have been copied clears the clipboard, unless that was turned off")
	r.Rule("exit: no function that runs while something may be on the clipboard ends the program on its own")
	p := r.P
	mf := r.Anchor("main.main")
	if mf == nil {
		return
	}
	mm := newMainModel(p)
	var off []string // the flag variables that turn it off
	for _, f := range p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var g *ssa.Global
				named := false
				for _, a := range c.Common().Args {
					if x, ok := a.(*ssa.Global); ok {
						g = x
					}
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"no-clear-clip"` {
						named = true
					}
				}
				if named && g != nil {
					off = append(off, g.Name())
				}
			}
		}
	}
	copies := func(f *ssa.Function) bool {
		for g := range p.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && clipWrite(calleeName(c.Common())) && !clears(c) {
						return true
					}
				}
			}
		}
		return false
	}
	cl := &Client{Name: "clip", KeepFacts: true, Inline: mm.inline}
	cl.Track = func(string) bool { return true }
	m := newSim(p, cl)
	T := m.T
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		if clipWrite(ev.Name) && len(ev.Args) > 0 {
			if isStr(ev.Args[0], "") {
				s.cl["clip"] = T.Str("cleared")
			} else {
				s.cl["clip"] = T.Str(fnName(ev.Instr.Parent()))
			}
			return
		}
		if ev.Fn == nil || !p.inModule[ev.Fn] {
			return
		}
		if p.reachesAny(ev.Fn, "crypt.Decrypt") {
			s.cl["open"] = T.True
		}
		if s.cl["open"] == nil {
			return // nothing of a file can have been copied yet
		}
		if copies(ev.Fn) {
			s.cl["clip"] = T.Str(fnName(ev.Fn))
			r.Oblige("exit", fnName(ev.Fn)+" called "+p.instrPos(ev.Instr))
			for g := range p.reach(ev.Fn) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok && ends(calleeName(c.Common())) {
							r.Violate("exit", fnName(g), p.instrPos(in), fnName(g)+" ends the program: what was copied stays on the clipboard", p.chain(ev.Fn, g))
						}
					}
				}
			}
		}
	}
	done := func(s *State, in ssa.Instruction) {
		r.Oblige("cleared", p.instrPos(in))
		c := s.cl["clip"]
		if c == nil || isStr(c, "cleared") {
			return
		}
		for f, v := range s.facts {
			if v && mentionsGlobal(f, p, off...) && (f.op == OLoad || f.op == OGlobal || f.op == OLeaf) {
				return
			}
			if !v && f.op == OBin && f.tok == tokEQL && mentionsGlobal(f, p, off...) && (f.args[0] == T.False || f.args[1] == T.False) {
				return
			}
		}
		n, _ := c.strVal()
		r.Violate("cleared", n, p.instrPos(in), "the program ends without clearing what "+n+" may have copied to the clipboard", s.Trail(14))
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) { done(s, in) }
	cl.OnOsExit = func(s *State, code *Term, in ssa.Instruction) { done(s, in) }
	m.Run(mf, nil)
	r.absorb(m, "main")
	r.Need("cleared", 3)
	r.Need("exit", 1)
}
