package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12", Title: "remotes are authenticated", Run: runC12,
		Explanation: "Every configuration a connection is made with is followed to the host key callback put into it; the callback is executed abstractly and what is known when it accepts a key is inspected."})
}

const sshPkg = "golang.org/x/crypto/ssh."

func runC12(r *Run) {
	r.Rule("set: every ssh connection is made with a host key callback of the program, given the known hosts of the entry that is connected to; none that accepts anything is used")
	r.Rule("accept: the callback accepts a key only if a known line names that host with that key's type and full hash, or the user answered the question with yes")
	r.Rule("changed: a known line is passed over only if it is for another host or is malformed; a different key for the same host is refused without asking")
	r.Rule("line: what is remembered for a host is its name, address, key type and key hash in the order the lines are read, only after the user said yes")
	r.Rule("kept: remembering a host keeps the lines that were there")
	p := r.P
	// callbacks
	isCB := func(T types.Type) bool { return strings.HasSuffix(types.TypeString(T, nil), sshPkg+"HostKeyCallback") }
	cbs := map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if strings.HasSuffix(calleeName(c.Common()), "ssh.InsecureIgnoreHostKey") {
						r.Violate("set", fnName(f)+"|insecure", p.instrPos(in), "a callback that accepts any key is used", nil)
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isCB(deref(st.Addr.Type())) || !strings.HasSuffix(types.TypeString(deref(fa.X.Type()), nil), sshPkg+"ClientConfig") {
					continue
				}
				r.Oblige("set", p.instrPos(in))
				for _, s := range p.sources(st.Val, prov{fields: true}) {
					g := funcOf(s)
					if g != nil && g.Synthetic != "" {
						// a method value
						for h := range p.reachSynthetic(g) {
							g = h
						}
					}
					if g == nil || !p.inModule[g] {
						r.Violate("set", fnName(f)+"|callback", p.instrPos(in), "the host key callback is not one of the program", nil)
						continue
					}
					cbs[g] = true
				}
			}
		}
	}
	for _, f := range p.modFuncs() {
		if cbs[f] {
			hostCallback(r, f)
		}
	}
	// connections
	for _, f := range p.modFuncs() {
		if pkgOf(f) == "main" && callsDirect(f, "scpsync.Recv", "scpsync.Send", sshPkg+"Dial") {
			hostConnect(r, f, cbs)
		}
	}
	for _, f := range p.modFuncs() {
		if pkgOf(f) == "scpsync" && callsDirect(f, sshPkg+"Dial", sshPkg+"NewClientConn") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || !wasCalled(c, sshPkg+"Dial", sshPkg+"NewClientConn") {
						continue
					}
					r.Oblige("set", "configuration passed on "+p.instrPos(in))
					a := c.Common().Args
					for _, s := range p.sources(a[len(a)-1], prov{caller: func(g *ssa.Function) bool { return pkgOf(g) == "scpsync" }}) {
						if _, ok := s.(*ssa.Parameter); !ok {
							r.Violate("set", fnName(f)+"|config", p.instrPos(in), "a connection is made with another configuration than the one given", nil)
						}
					}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && isCB(deref(st.Addr.Type())) {
						r.Violate("set", fnName(f)+"|replaced", p.instrPos(in), "the host key callback that was given is replaced", nil)
					}
				}
			}
		}
	}
	hostKept(r)
	r.Need("set", 4)
	r.Need("accept", 2)
	r.Need("changed", 1)
	r.Need("line", 1)
	r.Need("kept", 1)
}

// reachSynthetic are the module functions a wrapper calls.
func (p *Prog) reachSynthetic(g *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && p.inModule[h] {
					out[h] = true
				}
			}
		}
	}
	return out
}

func hostConnect(r *Run, root *ssa.Function, cbs map[*ssa.Function]bool) {
	p := r.P
	cl := &Client{Name: "connect"}
	cl.Track = func(string) bool { return true }
	cfg := func(f *ssa.Function) bool {
		for g := range p.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && pkgOf(g) == "main" {
						if strings.HasSuffix(types.TypeString(deref(st.Addr.Type()), nil), sshPkg+"HostKeyCallback") {
							return true
						}
					}
				}
			}
		}
		return false
	}
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		small := len(f.Blocks) <= 6 && !cbs[f] && !p.reachesAny(f, "(main.LineEditor).Line", "(main.LineEditor).LineHidden")
		return pkgOf(f) == "main" && (cfg(f) || small), true
	}
	m := newSim(p, cl)
	cl.OnCall = func(ev *CallEv) {
		if ev.Name != "scpsync.Recv" && ev.Name != "scpsync.Send" && ev.Name != sshPkg+"Dial" {
			return
		}
		s := ev.S
		r.Oblige("set", ev.Name+" "+p.instrPos(ev.Instr))
		for _, a := range ev.Args {
			if a.typ == nil || !strings.HasSuffix(types.TypeString(a.typ, nil), sshPkg+"ClientConfig") {
				continue
			}
			cb := s.loadField(a, a.typ, "HostKeyCallback")
			for cb != nil && cb.op == OConvert {
				cb = cb.args[0]
			}
			if cb == nil || cb.op != OClosure && cb.op != OFunc {
				r.Violate("set", fnName(root)+"|none", p.instrPos(ev.Instr), "a connection is made without the host key callback being set", s.Trail(12))
				continue
			}
			// its known hosts
			if cb.op != OClosure || len(cb.args) == 0 {
				r.Violate("set", fnName(root)+"|free", p.instrPos(ev.Instr), "the host key callback does not know the hosts of the entry", s.Trail(12))
				continue
			}
			ok := false
			for _, b := range cb.args {
				T := b.typ
				if T == nil {
					continue
				}
				st, is := structUnder(deref(T))
				if !is {
					ok = ok || knownHosts(b) || knownHosts(s.Load(b, types.Typ[types.String]))
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if isStringType(st.Field(i).Type()) {
						ok = ok || knownHosts(s.loadField(b, ptrTo(deref(T)), st.Field(i).Name()))
					}
				}
			}
			if !ok {
				r.Violate("set", fnName(root)+"|known", p.instrPos(ev.Instr), "the host key callback is not given the known hosts of the entry that is connected to", s.Trail(12))
			}
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}

// knownHosts: x is the known hosts field of an entry.
func knownHosts(x *Term) bool {
	return x != nil && (x.op == OLookup && isStr(x.args[1], "knownhosts") ||
		(x.op == OCall || x.op == OPure || x.op == OExtract) && strings.Contains(x.String(), `"knownhosts"`))
}

func hostCallback(r *Run, root *ssa.Function) {
	p := r.P
	cl := &Client{Name: "hostkey", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		return pkgOf(f) == "main" && !p.reachesAny(f, "(main.LineEditor).Line"), true
	}
	m := newSim(p, cl)
	T := m.T
	var host, key *Term
	var cur *State
	isType := func(x *Term) bool { // the key's type
		return x != nil && x.op == OCall && strings.HasSuffix(x.name, "PublicKey).Type") && x.args[0] == key
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		if ev.Name == "strings.Join" && isStr(ev.Args[1], " ") {
			if as := ev.S.elems(ev.Args[0]); as != nil {
				ev.S.cl["fmt:"+strconv.Itoa(res.id)] = T.Tuple(as...)
			}
		}
		if d := ev.Args; ev.Name == "encoding/hex.EncodeToString" && d[0].op == OSlice && (d[0].args[1] == T.Zero || d[0].args[1].op == ONone) && d[0].args[2].op == ONone && d[0].args[0].typ != nil {
			ev.S.cl["fmt:"+strconv.Itoa(res.id)] = T.Tuple(ev.S.Load(d[0].args[0], deref(d[0].args[0].typ)))
		}
		if ev.Name == "fmt.Sprintf" {
			if as := ev.S.elems(ev.Args[1]); as != nil {
				ev.S.cl["fmt:"+strconv.Itoa(res.id)] = T.Tuple(as...)
			}
		}
	}
	isHash := func(x *Term) bool { // the full hash of the key
		if x == nil {
			return false
		}
		if x.name == "encoding/hex.EncodeToString" || x.name == "fmt.Sprintf" && (isStr(x.args[0], "%x") || isStr(x.args[0], "%X")) {
			as := cur.cl["fmt:"+strconv.Itoa(x.id)]
			if as == nil || len(as.args) != 1 {
				return false
			}
			x = as.args[0]
			for x.op == OIface {
				x = x.args[0]
			}
		}
		if x.op != OPure && x.op != OCall {
			return false
		}
		sum := x.any(func(y *Term) bool {
			return (y.op == OPure || y.op == OCall) && y.name == "crypto/sha256.Sum256" && y.any(func(z *Term) bool {
				return z.op == OCall && strings.HasSuffix(z.name, "PublicKey).Marshal") && z.args[0] == key
			})
		})
		return sum && !x.any(func(y *Term) bool { return y.op == OSlice && !(y.args[1] == T.Zero || y.args[1].op == ONone) })
	}
	// field i of a known line
	part := func(x *Term) (line *Term, i int, ok bool) {
		if x == nil || x.op != OLoad && x.op != OIndex {
			return nil, 0, false
		}
		if x.op == OLoad {
			x = x.args[0]
		}
		if x.op != OIndexAddr && x.op != OIndex {
			return nil, 0, false
		}
		n, isInt := x.args[1].intVal()
		if !isInt {
			return nil, 0, false
		}
		return x.args[0], int(n), true
	}
	line := func(l *Term) bool { // one line of the known hosts, split
		return l.op == OCall || l.op == OPure || l.op == OExtract
	}
	_ = line
	eq := func(s *State, i int, with func(x *Term) bool, val bool) map[*Term]bool {
		cur = s
		out := map[*Term]bool{}
		for f, v := range s.facts {
			if f.op != OBin || f.tok != tokEQL || v != val {
				continue
			}
			for k := 0; k < 2; k++ {
				if l, j, ok := part(f.args[k]); ok && j == i && with(f.args[1-k]) {
					out[l] = true
				}
			}
		}
		return out
	}
	yes := func(s *State) bool {
		for f, v := range s.facts {
			if v && (f.op == OPure || f.op == OCall) && f.name == "strings.EqualFold" && (isStr(f.args[0], "y") || isStr(f.args[1], "y")) && (answerOf(s, f.args[0]) || answerOf(s, f.args[1])) {
				return true
			}
			if f.op == OBin && f.tok == tokEQL && v {
				for k := 0; k < 2; k++ {
					y := f.args[k]
					if (isStr(y, "y") || isStr(y, "Y") || isStr(y, "yes")) && answerOf(s, f.args[1-k]) {
						return true
					}
				}
			}
		}
		return false
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		if !loopCallsSplit(h) {
			return
		}
		r.Oblige("changed", p.instrPos(h.Instrs[0]))
		other := len(eq(s, 0, func(x *Term) bool { return x == host }, false)) > 0
		if other {
			return
		}
		// malformed: fewer fields than are compared
		for f, v := range s.facts {
			if f.op == OBin && f.any(func(y *Term) bool {
				return y.op == OLen && y.any(func(z *Term) bool { return strings.HasPrefix(z.name, "strings.") })
			}) {
				_ = v
				for _, l := range lensIn(f) {
					if s.ProveLE(l, T.Int(3)) || s.ProveLE(T.Int(5), l) || s.Known(T.Eq(l, T.Int(4)), false) {
						return
					}
				}
			}
		}
		r.Violate("changed", fnName(root), p.instrPos(h.Instrs[0]), "a known line can be passed over that may be for the same host", s.Trail(12))
	}
	cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != OFieldAddr || !isStringType(deref(addr.typ)) || addr.args[0].op != OParam {
			return
		}
		r.Oblige("line", p.instrPos(in))
		if !yes(s) {
			r.Violate("line", "unasked", p.instrPos(in), "a host is remembered without the user having said yes", s.Trail(12))
		}
		// host address type hash
		cur = s
		fs := formatted(s, val)
		if len(fs) != 4 || fs[0] != host || !isType(fs[2]) || !isHash(fs[3]) {
			r.Violate("line", "form", p.instrPos(in), "what is remembered for a host is not its name, address, key type and key hash", s.Trail(12))
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if len(res) == 0 || s.NonNil(res[0]) || res[0].op == OSentinel {
			return
		}
		r.Oblige("accept", p.instrPos(in))
		hs := eq(s, 0, func(x *Term) bool { return x == host }, true)
		ts := eq(s, 2, isType, true)
		ks := eq(s, 3, isHash, true)
		for l := range hs {
			if ts[l] && ks[l] {
				return
			}
		}
		if yes(s) {
			return
		}
		r.Violate("accept", fnName(root), p.instrPos(in), "a key can be accepted that is neither known for the host nor confirmed by the user", s.Trail(12))
	}
	m.Run(root, func(s *State, ps []*Term) {
		for i, q := range root.Params {
			switch {
			case isStringType(q.Type()) && host == nil:
				host = ps[i]
			case strings.HasSuffix(types.TypeString(q.Type(), nil), "ssh.PublicKey"):
				key = ps[i]
			}
		}
	})
	r.absorb(m, fnName(root))
}

func lensIn(x *Term) (out []*Term) {
	x.any(func(y *Term) bool {
		if y.op == OLen {
			out = append(out, y)
		}
		return false
	})
	return out
}

// answerOf: x is what the user answered (a result of a prompt that gave no error).
func answerOf(s *State, x *Term) bool {
	ok := false
	x.any(func(y *Term) bool {
		if y.op == OExtract && y.idx == 0 && y.args[0].op == OCall && strings.Contains(y.args[0].name, "main.") && s.IsNil(s.sim.T.Extract(y.args[0], 1, errType)) {
			ok = true
		}
		return false
	})
	return ok
}

// loopCallsSplit: the loop goes over lines and splits them.
func loopCallsSplit(h *ssa.BasicBlock) bool {
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(c.Common())
				if n == "strings.Split" || n == "strings.Fields" || n == "strings.SplitN" || strings.HasPrefix(n, "main.") && c.Common().StaticCallee() != nil && callsDirect(c.Common().StaticCallee(), "strings.Split", "strings.Fields", "strings.SplitN") {
					return true
				}
			}
		}
	}
	return false
}

// formatted are the values put together with single spaces between them.
func formatted(s *State, x *Term) []*Term {
	if (x.op == OPure || x.op == OCall) && (x.name == "strings.Join" || x.name == "fmt.Sprintf" && isStr(x.args[0], "%s %s %s %s")) {
		as := s.cl["fmt:"+strconv.Itoa(x.id)]
		if as == nil {
			return nil
		}
		var out []*Term
		for _, a := range as.args {
			for a.op == OIface {
				a = a.args[0]
			}
			out = append(out, a)
		}
		return out
	}
	if x.op == OConcat {
		var flat []*Term
		var walk func(y *Term)
		walk = func(y *Term) {
			if y.op == OConcat {
				for _, a := range y.args {
					walk(a)
				}
				return
			}
			flat = append(flat, y)
		}
		walk(x)
		var out []*Term
		for i, y := range flat {
			if i%2 == 1 {
				if !isStr(y, " ") {
					return nil
				}
				continue
			}
			out = append(out, y)
		}
		return out
	}
	return nil
}

// hostKept: storing known hosts keeps the old lines.
func hostKept(r *Run) {
	p := r.P
	n := 0
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" {
			continue
		}
		sets := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), ").Set") {
					for _, a := range c.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"knownhosts"` {
							sets = true
						}
					}
				}
			}
		}
		if !sets {
			continue
		}
		n++
		cl := &Client{Name: "kept"}
		cl.Track = func(string) bool { return true }
		cl.Inline = func(g *ssa.Function) (bool, bool) { return false, true }
		m := newSim(p, cl)
		T := m.T
		cl.OnCall = func(ev *CallEv) {
			if !strings.HasSuffix(ev.Name, ").Set") || len(ev.Args) < 4 || !isStr(ev.Args[2], "knownhosts") {
				return
			}
			r.Oblige("kept", p.instrPos(ev.Instr))
			s := ev.S
			v := ev.Args[3]
			for _, k := range sortedKeys(s.cl) {
				old := s.cl[k]
				if !strings.HasPrefix(k, "old:") || s.Known(T.Eq(T.Len(old), T.Zero), true) || s.Known(T.Eq(old, T.Str("")), true) {
					continue
				}
				if !v.any(func(y *Term) bool { return y == old }) {
					r.Violate("kept", fnName(f), p.instrPos(ev.Instr), "remembering a host can drop the hosts that were known", s.Trail(12))
				}
				return
			}
			if len(s.cl) == 0 {
				r.Violate("kept", fnName(f), p.instrPos(ev.Instr), "known hosts are stored without looking at those that are there", s.Trail(12))
			}
		}
		cl.OnLookup = func(s *State, mp, k *Term, in ssa.Instruction) {
			if isStr(k, "knownhosts") {
				if lk, ok := in.(*ssa.Lookup); ok {
					s.cl["old:"] = T.Lookup(mp, k, s.epochOf("map:"+typeKey(lk.X.Type().Underlying())), lk.X.Type().Underlying().(*types.Map).Elem())
				}
			}
		}
		m.Run(f, nil)
		r.absorb(m, fnName(f))
	}
}

func isStr(x *Term, want string) bool {
	v, ok := x.strVal()
	return ok && v == want
}

// elems are the elements of a slice of a local array of known length.
func (s *State) elems(x *Term) []*Term {
	T := s.sim.T
	if x == nil || x.op != OSlice || x.args[0].op != OAllocAddr || x.args[0].typ == nil {
		return nil
	}
	at, ok := deref(x.args[0].typ).Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return nil
	}
	var out []*Term
	for i := int64(0); i < at.Len(); i++ {
		out = append(out, s.Load(T.IndexAddr(x.args[0], T.Int(i), ptrTo(at.Elem())), at.Elem()))
	}
	return out
}
