package main

import (
	"go/constant"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C22", Title: "editing leaves nothing behind", Run: runC22,
		Explanation: "The function that runs the external editor is executed abstractly with every call failing or not; the temporary file is followed from its creation to its removal on every path, and the value that is stored to where it was read."})
}

func runC22(r *Run) {
	r.Rule("fresh: the file an editor is run on is made for it, did not exist before, and is the one the editor is given")
	r.Rule("removed: once made, the file is removed on every way out, and not opened again after that")
	r.Rule("wiped: if the old or the new value may be in the file, it is overwritten with at least as many zero bytes before it is removed, unless it cannot be opened")
	r.Rule("value: a value is only stored if the editor ended without an error and all of the file was read; it is that content, and is stored in the field that was edited")
	p := r.P
	var roots []*ssa.Function
	both := map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		if pkgOf(f) == "main" && p.reachesAny(f, "osutil.RunEditor") && p.reachesAny(f, "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile", "os.Create", "os.WriteFile", "io/ioutil.WriteFile") && p.reachesAny(f, "(*txlogs.DB).Set") {
			both[f] = true
		}
	}
	for _, f := range p.modFuncs() {
		if !both[f] {
			continue
		}
		minimal := f.Parent() == nil || !both[f.Parent()]
		for g := range p.reach(f) {
			if g != f && both[g] {
				minimal = false
			}
		}
		if minimal {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.Violate("anchor", "edit", "-", "no function edits a value in an external editor", nil)
		return
	}
	for _, f := range roots {
		edits(r, f)
	}
	r.Need("fresh", 1)
	r.Need("removed", 1)
	r.Need("wiped", 1)
	r.Need("value", 1)
}

func edits(r *Run, root *ssa.Function) {
	p := r.P
	cl := &Client{Name: "edit", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if pkgOf(f) != "main" {
			return false, true
		}
		for g := range p.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && pkgOf(g) == "main" {
						n := calleeName(c.Common())
						if n == "osutil.RunEditor" || strings.HasPrefix(n, "(*os.File).") || n == "os.Remove" || n == "os.OpenFile" || n == "(*txlogs.DB).Set" || strings.HasPrefix(n, "(blobformat.Blobs).Set") || strings.HasPrefix(n, "(blobformat.Blobs).DeleteKey") || n == "io/ioutil.ReadAll" || n == "io.ReadAll" || tempMakers[n] {
							return !p.reachesAny(f, "crypt.Encrypt", "crypt.Decrypt"), true
						}
					}
				}
			}
		}
		return false, true
	}
	m := newSim(p, cl)
	T := m.T
	isPath := func(s *State, x *Term) bool {
		if x == nil {
			return false
		}
		if x == s.cl["path"] {
			return true
		}
		return s.cl["tmp"] != nil && x.op == OCall && x.name == "(*os.File).Name" && x.args[0] == s.cl["tmp"]
	}
	handle := func(s *State, x *Term) bool { // x is an open handle on the file
		for x != nil && x.op == OIface {
			x = x.args[0]
		}
		for _, k := range sortedKeys(s.cl) {
			if strings.HasPrefix(k, "h:") && s.cl[k] == x {
				return true
			}
		}
		return false
	}
	file := func(res *Term, c ssa.Instruction) *Term {
		if e, ok := c.(ssa.Value); ok {
			for _, ref := range *e.Referrers() {
				if x, ok := ref.(*ssa.Extract); ok && x.Index == 0 {
					return T.Extract(res, 0, x.Type())
				}
			}
		}
		return nil
	}
	zeros := func(x *Term) *Term { // length of a fresh all-zero slice
		for x != nil && x.op == OIface {
			x = x.args[0]
		}
		if x != nil && x.op == OMake {
			return T.Len(x)
		}
		return nil
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		c, ok := ev.Instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		written := func(d *Term) {
			if d == nil {
				return
			}
			if n := zeros(d); n != nil {
				r.Oblige("wiped", p.instrPos(ev.Instr))
				s.cl["wipe"] = n
				return
			}
			if d.op == OConvert {
				d = d.args[0]
			}
			s.cl["v:old"] = d
			s.cl["old-err"] = errOf(T, res, 1)
			delete(s.cl, "wipe")
		}
		switch ev.Name {
		case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(*os.File).WriteAt", "(*os.File).Name", "(*os.File).Close", "(*os.File).Stat", "(*os.File).Sync", "(*os.File).Chmod", "(*os.File).Truncate", "(*os.File).ReadAt", "(*os.File).Fd":
		default:
			for _, h := range ev.Args {
				if handle(s, h) {
					for h.op == OIface {
						h = h.args[0]
					}
					if ev.Name == "(*os.File).Seek" && len(ev.Args) == 3 && ev.Args[1] == T.Zero && ev.Args[2] == T.Zero {
						delete(s.cl, "moved:"+tid(h))
					} else {
						s.cl["moved:"+tid(h)] = T.True
					}
				}
			}
		}
		switch {
		case tempMakers[ev.Name], ev.Name == "os.OpenFile" && s.cl["path"] == nil && s.cl["tmp"] == nil,
			ev.Name == "os.Create", ev.Name == "os.WriteFile", ev.Name == "io/ioutil.WriteFile":
			r.Oblige("fresh", p.instrPos(ev.Instr))
			if !freshFile(c.Common()) {
				r.Violate("fresh", "made", p.instrPos(ev.Instr), "the file to edit may have existed, and be someone else's", s.Trail(12))
			}
			f := file(res, ev.Instr)
			s.cl["tmp"] = f
			if f == nil {
				delete(s.cl, "tmp")
			} else {
				s.cl["h:0"] = f
			}
			if !tempMakers[ev.Name] {
				s.cl["path"] = ev.Args[0]
			}
			s.cl["made"] = errOf(T, res, 1)
		case (ev.Name == "os.OpenFile" || ev.Name == "os.Open") && isPath(s, ev.Args[0]):
			if s.cl["removed"] != nil {
				r.Violate("removed", "again", p.instrPos(ev.Instr), "the file is opened again after it was removed", s.Trail(12))
			}
			if f := file(res, ev.Instr); f != nil {
				s.cl["h:"+p.instrPos(ev.Instr)] = f
			}
			s.cl["open-err"] = errOf(T, res, 1)
		case ev.Name == "(*os.File).Write" || ev.Name == "(*os.File).WriteString" || ev.Name == "io.WriteString" || ev.Name == "(*os.File).WriteAt":
			if handle(s, ev.Args[0]) {
				h := ev.Args[0]
				for h.op == OIface {
					h = h.args[0]
				}
				at := ev.Name == "(*os.File).WriteAt"
				if zeros(ev.Args[1]) != nil && (!overwrites(h) || !at && s.cl["moved:"+tid(h)] != nil || at && ev.Args[2] != T.Zero) {
					// what is in the file stays, the zeros come after it
					r.Oblige("wiped", p.instrPos(ev.Instr))
					return
				}
				if !at {
					s.cl["moved:"+tid(h)] = T.True
				}
				written(ev.Args[1])
			}
		case ev.Name == "osutil.RunEditor":
			r.Oblige("fresh", "editor "+p.instrPos(ev.Instr))
			if !isPath(s, ev.Args[0]) {
				r.Violate("fresh", "editor", p.instrPos(ev.Instr), "the editor is not run on the file made for it", s.Trail(12))
			}
			if e := s.cl["old-err"]; e != nil && !s.IsNil(e) {
				r.Violate("value", "partial", p.instrPos(ev.Instr), "a value is edited that may not have been written completely", s.Trail(12))
			}
			s.cl["ran"] = res
		case strings.HasSuffix(ev.Name, ").ExitCode"):
			s.cl["code"] = res
		case ev.Name == "io/ioutil.ReadAll" || ev.Name == "io.ReadAll":
			if handle(s, ev.Args[0]) && s.cl["ran"] != nil {
				if x := file(res, ev.Instr); x != nil {
					s.cl["v:new"] = x
					s.cl["new-err"] = errOf(T, res, 1)
				}
			}
		case ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile":
			if isPath(s, ev.Args[0]) && s.cl["ran"] != nil {
				if x := file(res, ev.Instr); x != nil {
					s.cl["v:new"] = x
					s.cl["new-err"] = errOf(T, res, 1)
				}
			}
		case ev.Name == "(*blobformat.Blobs).MustFind" || ev.Name == "(blobformat.Blobs).MustFind" || ev.Name == "(*blobformat.Blobs).Find" || ev.Name == "(blobformat.Blobs).Find":
			s.cl["uuid"] = ev.Args[len(ev.Args)-1]
			if x := file(res, ev.Instr); x != nil {
				s.cl["entry"] = x
			}
		case ev.Name == "os.Remove":
			if isPath(s, ev.Args[0]) {
				r.Oblige("removed", p.instrPos(ev.Instr))
				s.cl["removed"] = T.True
				wiped(r, p, s, ev.Instr)
			} else {
				r.Violate("removed", "other", p.instrPos(ev.Instr), "a file other than the temporary one is removed", s.Trail(12))
			}
		}
	}
	cl.OnCall = func(ev *CallEv) {
		s := ev.S
		isSet := ev.Name == "(*txlogs.DB).Set" || ev.Name == "(blobformat.Blobs).Set" || ev.Name == "(*blobformat.Blobs).Set"
		isDel := strings.HasSuffix(ev.Name, ").DeleteKey")
		if !isSet && !isDel {
			return
		}
		r.Oblige("value", ev.Name+" "+p.instrPos(ev.Instr))
		ran := s.cl["ran"]
		if ran == nil || !s.IsNil(ran) && !(s.cl["code"] != nil && s.Known(T.Eq(s.cl["code"], T.Zero), true)) {
			r.Violate("value", "editor", p.instrPos(ev.Instr), "the value is stored although the editor may have ended with an error", s.Trail(12))
		}
		nv := s.cl["v:new"]
		if nv == nil || !s.IsNil(s.cl["new-err"]) {
			r.Violate("value", "read", p.instrPos(ev.Instr), "the value is stored although the file may not have been read completely", s.Trail(12))
			return
		}
		if s.cl["uuid"] != ev.Args[1] {
			r.Violate("value", "entry", p.instrPos(ev.Instr), "the value is not stored in the entry that was edited", s.Trail(12))
		}
		if isSet {
			v := ev.Args[3]
			if !(v.op == OConvert && v.args[0] == nv) {
				r.Violate("value", "content", p.instrPos(ev.Instr), "the value stored is not the content of the edited file", s.Trail(12))
			}
		} else if !s.Known(T.Eq(T.Len(nv), T.Zero), true) {
			r.Violate("value", "erased", p.instrPos(ev.Instr), "the value is erased although the edited file may not be empty", s.Trail(12))
		}
		if o := s.cl["v:old"]; o != nil && o.op == OLookup {
			if o.args[1] != ev.Args[2] || o.args[0] != s.cl["entry"] {
				r.Violate("value", "field", p.instrPos(ev.Instr), "the value is not stored in the field that was edited", s.Trail(12))
			}
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if s.cl["made"] == nil || s.NonNil(s.cl["made"]) {
			return
		}
		r.Oblige("removed", "exit "+p.instrPos(in))
		if s.cl["removed"] == nil {
			r.Violate("removed", "exit", p.instrPos(in), "the temporary file is left behind", s.Trail(12))
		}
	}
	cl.OnOsExit = func(s *State, code *Term, in ssa.Instruction) {
		if s.cl["made"] != nil && !s.NonNil(s.cl["made"]) && s.cl["removed"] == nil {
			r.Violate("removed", "osexit", p.instrPos(in), "the program ends with the temporary file left behind", s.Trail(12))
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}

// overwrites: writing through the handle h replaces what is at the beginning
// of the file.
func overwrites(h *Term) bool {
	k := callOf(h)
	if k.op != OCall {
		return true
	}
	switch k.name {
	case "os.Open":
		return false
	case "os.OpenFile":
		if len(k.args) > 1 && k.args[1].op == OConst && k.args[1].cv != nil && k.args[1].cv.Kind() == constant.Int {
			if f, ok := constant.Int64Val(k.args[1].cv); ok {
				return f&int64(os.O_APPEND) == 0 && f&int64(os.O_WRONLY|os.O_RDWR) != 0
			}
		}
	}
	return true
}

// wiped: at the removal, the values that may be in the file were overwritten.
func wiped(r *Run, p *Prog, s *State, in ssa.Instruction) {
	T := s.sim.T
	if e := s.cl["open-err"]; e != nil && s.NonNil(e) {
		return // cannot be opened
	}
	r.Oblige("wiped", "removal "+p.instrPos(in))
	for _, k := range []string{"v:old", "v:new"} {
		v := s.cl[k]
		if v == nil {
			continue
		}
		if e := s.cl[strings.TrimPrefix(k, "v:")+"-err"]; e != nil && s.NonNil(e) {
			continue
		}
		n := T.Len(v)
		if s.Known(T.Eq(n, T.Zero), true) || s.ProveLE(n, T.Zero) {
			continue
		}
		w := s.cl["wipe"]
		if w == nil || !s.ProveLE(n, w) {
			what := "old"
			if k == "v:new" {
				what = "new"
			}
			r.Violate("wiped", k, p.instrPos(in), "the file is removed while the "+what+" value may still be in it", s.Trail(12))
		}
	}
}
