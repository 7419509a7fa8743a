package main

import (
	"go/constant"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Title: "saving replaces a file as a whole", Run: runC09,
		Explanation: "Every write outside export and edit is shown to go to a fresh temporary file; the functions that move such a file into place are executed abstractly to see that all of it was written, flushed and closed without an error before."})
}

var tempMakers = map[string]bool{"os.CreateTemp": true, "io/ioutil.TempFile": true}

// freshFile: the call makes a file that did not exist.
func freshFile(c *ssa.CallCommon) bool {
	switch n := calleeName(c); n {
	case "os.OpenFile":
		k, ok := c.Args[1].(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64()&int64(os.O_CREATE|os.O_EXCL) == int64(os.O_CREATE|os.O_EXCL)
	default:
		return tempMakers[n]
	}
}

func runC09(r *Run) {
	r.Rule("place: outside export and edit nothing is written into an existing file: what is written to are files made for it, which are then moved into place")
	r.Rule("move: a file is moved into place only after all data was written to it, flushed and closed, each without an error, and it is in the directory of the file it replaces")
	r.Rule("report: whoever replaces a file reports success only if the file was moved into place")
	r.Rule("clean: a file that is not moved into place is removed again")
	r.Rule("encrypted: a file is replaced or sent to a remote only after encrypting it succeeded")
	p := r.P
	out := p.outside(p.plainRoots())
	for _, f := range p.modFuncs() {
		if !out[f] || pkgOf(f) == "scpsync" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				switch n {
				case "os.WriteFile", "io/ioutil.WriteFile", "os.Create", "os.Truncate", "(*os.File).Truncate":
					r.Oblige("place", n+" "+p.instrPos(in))
					r.Violate("place", fnName(f)+"|"+n, p.instrPos(in), n+" changes a file in place, if it is interrupted or fails the old contents are lost", nil)
				case "os.OpenFile":
					r.Oblige("place", n+" "+p.instrPos(in))
					k, ok := c.Common().Args[1].(*ssa.Const)
					if freshFile(c.Common()) || ok && k.Value != nil && k.Int64()&int64(os.O_WRONLY|os.O_RDWR) == 0 {
						continue
					}
					r.Violate("place", fnName(f)+"|"+n, p.instrPos(in), "a file that may exist is opened to be written in place", nil)
				case "os.CreateTemp", "io/ioutil.TempFile":
					r.Oblige("place", n+" "+p.instrPos(in))
				case "scpsync.Send":
					r.Oblige("encrypted", n+" "+p.instrPos(in))
				}
			}
		}
	}
	// the functions that move files into place
	both := map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		if out[f] && pkgOf(f) == "main" && p.reachesAny(f, "os.Rename") && p.reachesAny(f, "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile") {
			both[f] = true
		}
	}
	covered := map[ssa.Instruction]bool{}
	for _, f := range p.modFuncs() {
		if !both[f] {
			continue
		}
		minimal := true
		for g := range p.reach(f) {
			if g != f && both[g] && g.Parent() != f {
				minimal = false
			}
		}
		if minimal {
			replaces(r, f, covered)
		}
	}
	for _, f := range p.modFuncs() {
		if !out[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && wasCalled(c, "os.Remove", "os.RemoveAll") && !covered[in] {
					r.Violate("place", fnName(f)+"|remove", p.instrPos(in), "a file other than a temporary one is removed", nil)
				} else if ok && wasCalled(c, "os.Rename", "os.Link", "os.Symlink") && !covered[in] {
					r.Violate("move", fnName(f)+"|"+calleeName(c.Common()), p.instrPos(in), "a file is moved into place without having been made for it", nil)
				}
			}
		}
	}
	encryptedFirst(r, out)
	r.Need("place", 1)
	r.Need("move", 1)
	r.Need("report", 1)
	r.Need("encrypted", 2)
}

func replaces(r *Run, root *ssa.Function, covered map[ssa.Instruction]bool) {
	p := r.P
	cl := &Client{Name: "replace", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) { return pkgOf(f) == "main", true }
	m := newSim(p, cl)
	T := m.T
	nameOf := func(s *State, x *Term) bool {
		tmp := s.cl["tmp"]
		if tmp == nil || x == nil {
			return false
		}
		if x == s.cl["tmpname"] {
			return true
		}
		return (x.op == OCall || x.op == OPure) && x.name == "(*os.File).Name" && x.args[0] == tmp
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		c, ok := ev.Instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		isTmp := len(ev.Args) > 0 && s.cl["tmp"] != nil && ev.Args[0] == s.cl["tmp"]
		switch {
		case tempMakers[ev.Name], ev.Name == "os.OpenFile" && freshFile(c.Common()):
			s.cl["tmp"] = T.Extract(res, 0, nil)
			if e, ok := c.(ssa.Value); ok {
				for _, ref := range *e.Referrers() {
					if x, ok := ref.(*ssa.Extract); ok && x.Index == 0 {
						s.cl["tmp"] = T.Extract(res, 0, x.Type())
					}
				}
			}
			s.cl["made"] = errOf(T, res, 1)
			delete(s.cl, "tmpname")
			if ev.Name == "os.OpenFile" {
				s.cl["tmpname"] = ev.Args[0]
				s.cl["dir"] = ev.Args[0]
			} else {
				s.cl["dir"] = ev.Args[0]
			}
			for _, k := range []string{"w", "sync", "close", "moved", "removed"} {
				delete(s.cl, k)
			}
		case isTmp && (ev.Name == "(*os.File).Write" || ev.Name == "(*os.File).WriteString"):
			if s.cl["w"] != nil && !s.IsNil(s.cl["w"]) {
				r.Violate("move", "twice", p.instrPos(ev.Instr), "writing goes on after a write that may have failed", s.Trail(12))
			}
			s.cl["w"] = errOf(T, res, 1)
			if d := ev.Args[1]; d.op == OSlice {
				full := (d.args[1].op == ONone || s.Known(T.Eq(d.args[1], T.Zero), true)) && (d.args[2].op == ONone || s.ProveLE(T.Len(d.args[0]), d.args[2]))
				if !full {
					r.Violate("move", "part", p.instrPos(ev.Instr), "only a part of the data is written", s.Trail(12))
				}
			}
			delete(s.cl, "sync")
			delete(s.cl, "close")
		case isTmp && ev.Name == "(*os.File).Sync":
			s.cl["sync"] = res
			delete(s.cl, "close")
		case isTmp && ev.Name == "(*os.File).Close":
			if s.cl["close"] == nil {
				s.cl["close"] = res
			}
		case ev.Name == "io.WriteString" || ev.Name == "io.Copy":
			if len(ev.Args) > 0 && ev.Args[0].op == OIface && ev.Args[0].args[0] == s.cl["tmp"] {
				s.cl["w"] = errOf(T, res, 1)
				delete(s.cl, "sync")
				delete(s.cl, "close")
			}
		case ev.Name == "os.Remove":
			covered[ev.Instr] = true
			if !nameOf(s, ev.Args[0]) && s.cl["removed"] == nil {
				r.Violate("place", "remove", p.instrPos(ev.Instr), "a file other than the temporary one is removed", s.Trail(12))
			}
			if nameOf(s, ev.Args[0]) {
				s.cl["removed"] = T.True
				delete(s.cl, "tmpname")
			}
		case ev.Name == "os.Rename":
			covered[ev.Instr] = true
			r.Oblige("move", p.instrPos(ev.Instr))
			s.cl["moved"] = res
			if !nameOf(s, ev.Args[0]) {
				r.Violate("move", "what", p.instrPos(ev.Instr), "what is moved into place is not the file made for it", s.Trail(12))
				return
			}
			for _, k := range []struct{ k, what string }{{"w", "written"}, {"sync", "flushed to the disk"}, {"close", "closed"}} {
				if x := s.cl[k.k]; x == nil || !s.IsNil(x) {
					r.Violate("move", k.k, p.instrPos(ev.Instr), "a file is moved into place that was not "+k.what+", or not known to be without an error", s.Trail(12))
				}
			}
			dir := s.cl["dir"]
			same := dir != nil && (dir.op == OCall || dir.op == OPure) && dir.name == "path/filepath.Dir" && dir.args[0] == ev.Args[1]
			if dir != nil && dir.op == OConcat && dir.args[0] == ev.Args[1] {
				same = true
			}
			if !same {
				r.Violate("move", "dir", p.instrPos(ev.Instr), "the file that is moved into place was not made in the directory of the file it replaces", s.Trail(12))
			}
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		mv := s.cl["moved"]
		r.Oblige("report", fnName(root)+" "+p.instrPos(in))
		if succeeds(s, res) {
			ok := mv != nil && s.IsNil(mv)
			if mv != nil {
				for _, x := range res {
					ok = ok || x == mv
				}
			}
			if !ok {
				r.Violate("report", fnName(root), p.instrPos(in), "success can be reported although the file was not moved into place", s.Trail(12))
			}
			if mv != nil && !s.NonNil(mv) {
				return
			}
		}
		if s.cl["tmp"] == nil || s.cl["removed"] != nil || mv != nil && s.IsNil(mv) || s.NonNil(s.cl["made"]) {
			return
		}
		r.Oblige("clean", fnName(root)+" "+p.instrPos(in))
		if mv != nil && !s.NonNil(mv) {
			// moved or not is left to the caller to see
			return
		}
		r.Violate("clean", fnName(root), p.instrPos(in), "a temporary file is left behind when the file it was to replace was not replaced", s.Trail(12))
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}

// encryptedFirst: what encrypting returned is used only when it succeeded.
func encryptedFirst(r *Run, out map[*ssa.Function]bool) {
	p := r.P
	calls := map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		if out[f] && pkgOf(f) == "main" && callsDirect(f, "crypt.Encrypt") {
			calls[f] = true
		}
	}
	// a function that hands the result on is judged where it is used
	onlyHands := func(f *ssa.Function) bool {
		return calls[f] && f.Signature.Results().Len() > 1
	}
	roots := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		if d < 4 && onlyHands(f) {
			for _, g := range p.callers(f) {
				calls[g] = true
				up(g, d+1)
			}
			return
		}
		roots[f] = true
	}
	for _, f := range p.modFuncs() {
		if calls[f] {
			up(f, 0)
		}
	}
	for _, root := range p.modFuncs() {
		if !roots[root] {
			continue
		}
		cl := &Client{Name: "encrypt"}
		cl.Track = func(n string) bool { return n == "crypt.Encrypt" }
		cl.Inline = func(f *ssa.Function) (bool, bool) { return onlyHands(f), true }
		m := newSim(p, cl)
		cl.OnResult = func(ev *CallEv, res *Term) {
			if ev.Name == "crypt.Encrypt" {
				ev.S.cl["err"] = errOf(m.T, res, 1)
				r.Oblige("encrypted", "result of crypt.Encrypt "+p.instrPos(ev.Instr))
			}
		}
		cl.OnCall = func(ev *CallEv) {
			if ev.Name == "crypt.Encrypt" {
				return
			}
			for _, a := range ev.Args {
				if k, i := resOf(a, "crypt.Encrypt"); k != nil && i == 0 {
					r.Oblige("encrypted", ev.Name+" "+p.instrPos(ev.Instr))
					if e := ev.S.cl["err"]; e == nil || !ev.S.IsNil(e) {
						r.Violate("encrypted", fnName(root)+"|"+ev.Name, p.instrPos(ev.Instr), "the result of the encryption is used without it being known to have succeeded", ev.S.Trail(12))
					}
				}
			}
		}
		cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
			e := s.cl["err"]
			if e == nil || s.IsNil(e) || !succeeds(s, res) || strings.Contains(root.Name(), "$") {
				return
			}
			for _, x := range res {
				if x == e {
					return
				}
			}
			r.Violate("report", fnName(root)+"|encrypt", p.instrPos(in), "success can be reported although encrypting failed", s.Trail(12))
		}
		m.Run(root, nil)
		r.absorb(m, fnName(root))
	}
}

func callsDirect(f *ssa.Function, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, n := range names {
					if calleeName(c.Common()) == n {
						return true
					}
				}
			}
		}
	}
	return false
}

func wasCalled(c ssa.CallInstruction, names ...string) bool {
	for _, n := range names {
		if calleeName(c.Common()) == n {
			return true
		}
	}
	return false
}
