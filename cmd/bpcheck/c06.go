package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06", Title: "a file opened in the past is never written", Run: runC06,
		Explanation: "main, the command loop and loading are executed abstractly to see that read-only mode is on exactly when a time is given and guards every way to save, synchronize or run a writing command; the commands marked read-only are checked by their effects."})
}

// fileWriters are the functions outside the module that create or change
// files, or send data away.
var fileWriters = map[string]bool{
	"os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Create": true, "os.OpenFile": true,
	"os.Rename": true, "os.Remove": true, "os.RemoveAll": true, "os.Truncate": true, "os.Chmod": true,
	"os.CreateTemp": true, "io/ioutil.TempFile": true, "os.Mkdir": true, "os.MkdirAll": true, "os.MkdirTemp": true, "io/ioutil.TempDir": true,
	"os.Link": true, "os.Symlink": true, "(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).WriteAt": true, "(*os.File).Truncate": true,
	"scpsync.Send": true,
}

// writesWhat says by which construct a function changes the store, the
// session's credentials, a file or a remote; "" if it does not.
func (p *Prog) writesWhat(f *ssa.Function) (what string, at ssa.Instruction) {
	dbT, ui := p.typ("txlogs.DB"), p.typ("main.uiContext")
	li := fieldIndex(dbT, "Log")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					T := deref(fa.X.Type())
					if types.Identical(T, dbT) && fa.Field == li && !localBase(fa.X) {
						return "changes the log", in
					}
					if types.Identical(T, ui) {
						n := structFieldName(T, fa.Field)
						for _, c := range append([]string{"store", "readOnly", "filename"}, credFields...) {
							if n == c {
								return "changes the session's " + n, in
							}
						}
					}
				}
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if fileWriters[n] {
					return "calls " + n, in
				}
				if strings.HasPrefix(n, "(*golang.org/x/crypto/ssh.") || n == "golang.org/x/crypto/ssh.Dial" || n == "net.Dial" {
					return "calls " + n, in
				}
			}
		}
	}
	return "", nil
}

// localBase: the address is of a variable of the function itself.
func localBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

func structFieldName(T types.Type, i int) string {
	st, ok := structUnder(T)
	if !ok || i >= st.NumFields() {
		return ""
	}
	return st.Field(i).Name()
}

// chain finds a call path from f to g for the report.
func (p *Prog) chain(f, g *ssa.Function) []string {
	prev := map[*ssa.Function]*ssa.Function{f: nil}
	q := []*ssa.Function{f}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == g {
			var out []string
			for y := x; y != nil; y = prev[y] {
				out = append([]string{fnName(y)}, out...)
			}
			return out
		}
		next := append([]*ssa.Function(nil), x.AnonFuncs...)
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					next = append(next, p.callTargets(c)...)
				}
			}
		}
		for _, y := range next {
			if _, ok := prev[y]; !ok && p.inModule[y] {
				prev[y] = x
				q = append(q, y)
			}
		}
	}
	return nil
}

func runC06(r *Run) {
	r.Rule("commands: no command marked as usable in read-only mode reaches code that changes the log, the session's credentials, a file or a remote")
	r.Rule("dispatch: a command not marked so is run only if the session is known not to be read-only")
	r.Rule("mode: the session is read-only exactly if a time was given, from before the file is opened, and nothing turns that off")
	r.Rule("save: in read-only mode neither saving nor synchronizing is reached from main")
	r.Rule("past: what is shown of a file opened at a time is a prefix of its log: everything up to the first change after that time, and that change is later")
	p := r.P
	ui := p.typ("main.uiContext")
	ct := p.typ("main.replCmd")
	if ui == nil || fieldIndex(ui, "readOnly") < 0 || ct == nil {
		r.Violate("anchor", "readOnly", "-", "the read-only mode of the session or the command table is not in the source", nil)
		return
	}
	// commands
	ro := 0
	for _, c := range p.commands() {
		r.Oblige("commands", "command "+c.name)
		if !c.readOnly {
			continue
		}
		ro++
		var gs []*ssa.Function
		for g := range p.reach(c.run) {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return fnName(gs[i]) < fnName(gs[j]) })
		for _, g := range gs {
			if w, at := p.writesWhat(g); w != "" {
				r.Violate("commands", c.name+"|"+w, p.instrPos(at), "the command "+c.name+" may be run in read-only mode but "+w, p.chain(c.run, g))
				break
			}
		}
	}
	r.Need("commands", 20)
	r.Count("read_only_commands", ro)

	// stores to the mode
	ri := fieldIndex(ui, "readOnly")
	for _, f := range p.modFuncs() {
		if p.fn("main.main") == f {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), ui) && fa.Field == ri {
						if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "true" {
							continue
						}
						onlyMain := true
						for _, g := range p.callers(f) {
							if g != p.fn("main.main") {
								onlyMain = false
							}
						}
						if !onlyMain {
							r.Violate("mode", fnName(f), p.instrPos(in), "read-only mode can be turned off", nil)
						}
					}
				}
			}
		}
	}
	roMain(r, ui)
	roDispatch(r, ui, ct)
	roPast(r, ui)
}

func mentionsGlobal(x *Term, p *Prog, names ...string) bool {
	return x.any(func(y *Term) bool {
		if y.op == OGlobal {
			g := y.obj.(*ssa.Global)
			for _, n := range names {
				if g.Name() == n && p.ByPkg["main"] == g.Pkg {
					return true
				}
			}
		}
		return false
	})
}

func roMain(r *Run, ui types.Type) {
	p := r.P
	mf := r.Anchor("main.main")
	if mf == nil {
		return
	}
	cl := &Client{Name: "main", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	writes := map[*ssa.Function]bool{}
	saves := func(f *ssa.Function) bool {
		return p.reachesAny(f, "crypt.Encrypt") && !p.reachesAny(f, "txlogs.Merge")
	}
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if pkgOf(f) != "main" {
			return false, true
		}
		if saves(f) || len(f.Blocks) <= 3 && !p.reachesAny(f, "crypt.Decrypt") {
			return true, true
		}
		if p.driver(f) || wraps(p, f) {
			return true, true
		}
		// helpers split off main that only dispatch
		if p.reachesAny(f, "crypt.Encrypt") && !directMerge(p, f) && !dispatches(p, f) {
			return true, true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), ui) && structFieldName(ui, fa.Field) == "readOnly" {
						return true, true
					}
				}
			}
		}
		return false, true
	}
	m := newSim(p, cl)
	T := m.T
	session := func(s *State, args []*Term) *Term {
		for _, a := range args {
			if a.typ != nil && types.Identical(a.typ, ptrTo(ui)) {
				return a
			}
		}
		return s.cl["session"]
	}
	mode := func(s *State, in ssa.Instruction, ctx *Term) {
		// on every path the mode agrees with the time that was given
		v := s.loadField(ctx, ptrTo(ui), "readOnly")
		given, not := false, false
		for f, b := range s.facts {
			if mentionsGlobal(f, p, "historyTime") && (f.op == OPure || f.op == OCall) && strings.HasSuffix(f.name, "Time).IsZero") {
				given, not = given || !b, not || b
			}
			if f.op == OBin && f.tok == tokEQL && mentionsGlobal(f, p, "flagTime") && (f.args[0] == T.Zero || f.args[1] == T.Zero) {
				given, not = given || !b, not || b
			}
		}
		r.Oblige("mode", "opened "+p.instrPos(in))
		direct := (v.op == ONot || v.op == OPure || v.op == OCall) && mentionsGlobal(v, p, "historyTime", "flagTime")
		switch {
		case direct && v.op == ONot:
		case s.Known(v, true) && given, s.Known(v, false) && not:
		default:
			r.Violate("mode", "open", p.instrPos(in), "whether the session is read-only does not follow from whether a time was given", s.Trail(12))
		}
	}
	check := func(s *State, in ssa.Instruction, args []*Term, what string) {
		ctx := session(s, args)
		r.Oblige("save", what+" "+p.instrPos(in))
		if ctx == nil {
			r.Violate("save", what, p.instrPos(in), what+" is reached without a session", s.Trail(12))
			return
		}
		v := s.loadField(ctx, ptrTo(ui), "readOnly")
		if !s.Known(v, false) && !(s.cl["ui"] != nil && s.Known(s.cl["ui"], false)) {
			r.Violate("save", what, p.instrPos(in), what+" can be reached in read-only mode", s.Trail(12))
		}
	}
	cl.OnEnter = func(s *State, fn *ssa.Function, args []*Term, site ssa.Instruction) {
		if c := session(s, args); c != nil {
			s.cl["session"] = c
		}
	}
	cl.OnCall = func(ev *CallEv) {
		if c := session(ev.S, ev.Args); c != nil {
			ev.S.cl["session"] = c
		}
		if ev.Fn == nil {
			return
		}
		switch {
		case ev.Name == "crypt.Encrypt":
			check(ev.S, ev.Instr, nil, "saving")
		case fileWriters[ev.Name] && ev.Ctx.fn != nil:
			check(ev.S, ev.Instr, nil, "writing the file")
		case p.inModule[ev.Fn] && p.reachesAny(ev.Fn, "crypt.Decrypt") && !p.reachesAny(ev.Fn, "crypt.Encrypt"):
			if c := session(ev.S, ev.Args); c != nil {
				mode(ev.S, ev.Instr, c)
				ev.S.cl["opened"] = T.Bool(true)
			}
		case p.inModule[ev.Fn] && directMerge(p, ev.Fn) && !p.driver(ev.Fn) && !wraps(p, ev.Fn):
			writes[ev.Fn] = true
			check(ev.S, ev.Instr, ev.Args, "synchronizing")
		}
	}
	cl.OnLoad = seeMode(ui)
	cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if s.cl["opened"] == nil || addr.op != OFieldAddr || addr.args[0].typ == nil || !types.Identical(deref(addr.args[0].typ), ui) || structFieldName(ui, addr.idx) != "readOnly" {
			return
		}
		old := s.Load(addr, types.Typ[types.Bool])
		if val != old && !s.Known(val, true) && !s.Known(old, false) {
			r.Violate("mode", "turned-off", p.instrPos(in), "read-only mode can be turned off after the file was opened", s.Trail(12))
		}
	}
	m.Run(mf, nil)
	r.absorb(m, "main")
	r.Need("save", 3)
	r.Need("mode", 1)
}

// wraps: f does no more about synchronizing than deciding whether to.
func wraps(p *Prog, f *ssa.Function) bool {
	return pkgOf(f) == "main" && directMerge(p, f) && !loops(f) && len(f.Blocks) <= 12 && passes(f, func(g *ssa.Function) bool { return p.inModule[g] && directMerge(p, g) })
}

// passes: f calls a function that is so, and gives it the session.
func passes(f *ssa.Function, is func(*ssa.Function) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && is(g) && len(c.Common().Args) > 0 {
					for _, x := range f.Params {
						if c.Common().Args[0] == x {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// directMerge: f merges logs, and not only through the command table.
func directMerge(p *Prog, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] || g.Blocks == nil {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if calleeName(c.Common()) == "txlogs.Merge" {
						return true
					}
					if t := c.Common().StaticCallee(); t != nil && p.inModule[t] && walk(t) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// dispatches: f runs commands of the command table.
func dispatches(p *Prog, f *ssa.Function) bool {
	for g := range p.reach(f) {
		if runsCommand(p, g) {
			return true
		}
	}
	return false
}

func runsCommand(p *Prog, g *ssa.Function) bool {
	ct := p.typ("main.replCmd")
	st, _ := structUnder(ct)
	ft := st.Field(fieldIndex(ct, "Run")).Type()
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil && types.Identical(c.Common().Value.Type(), ft) {
				return true
			}
		}
	}
	return false
}

// seeMode remembers the last reading of the mode.
func seeMode(ui types.Type) func(s *State, addr, val *Term, in ssa.Instruction) {
	return func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OFieldAddr && addr.args[0].typ != nil && types.Identical(deref(addr.args[0].typ), ui) && structFieldName(ui, addr.idx) == "readOnly" {
			s.cl["ui"] = val
		}
	}
}

func roDispatch(r *Run, ui, ct types.Type) {
	p := r.P
	st, _ := structUnder(ct)
	ft := st.Field(fieldIndex(ct, "Run")).Type()
	var roots []*ssa.Function
	for _, f := range p.mainCallees() {
		if dispatches(p, f) {
			roots = append(roots, f)
		}
	}
	// dispatchers nobody above calls from main are roots of their own
	for _, f := range p.modFuncs() {
		if runsCommand(p, f) {
			covered := false
			for _, g := range roots {
				if p.reach(g)[f] {
					covered = true
				}
			}
			if !covered {
				roots = append(roots, f)
			}
		}
	}
	// the functions between a dispatcher and its root, by direct calls
	leadsTo := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.modFuncs() {
			if leadsTo[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && (leadsTo[g] || runsCommand(p, g)) && !leadsTo[f] {
							leadsTo[f], ch = true, true
						}
					}
				}
			}
		}
	}
	for _, root := range roots {
		cl := &Client{Name: "dispatch"}
		cl.Inline = func(f *ssa.Function) (bool, bool) {
			return pkgOf(f) == "main" && (runsCommand(p, f) || leadsTo[f] || touchesMode(f, ui, ct)), true
		}
		m := newSim(p, cl)
		cl.OnCall = func(ev *CallEv) {
			c, ok := ev.Instr.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil || !types.Identical(c.Common().Value.Type(), ft) {
				return
			}
			s := ev.S
			r.Oblige("dispatch", "a command is run "+p.instrPos(ev.Instr))
			fnv := s.val(c.Common().Value)
			for _, k := range sortedKeys(s.cl) {
				if strings.HasPrefix(k, "ui") && s.Known(s.cl[k], false) {
					return
				}
			}
			var cmd *Term
			if fnv.op == OField {
				cmd = fnv.args[0]
			} else if fnv.op == OLoad && fnv.args[0].op == OFieldAddr {
				if ro := s.loadField(fnv.args[0].args[0], ptrTo(ct), "ReadOnly"); ro != nil && s.Known(ro, true) {
					return
				}
			}
			if cmd != nil {
				if ro := s.fieldOf(cmd, ct, "ReadOnly"); ro != nil && s.Known(ro, true) {
					return
				}
			}
			r.Violate("dispatch", fnName(ev.Instr.Parent()), p.instrPos(ev.Instr), "a command that is not marked as usable in read-only mode can be run in it", s.Trail(12))
		}
		cl.OnLoad = seeMode(ui)
		m.Run(root, nil)
		r.absorb(m, fnName(root))
	}
	r.Need("dispatch", 1)
}

// roPast: loading a file at a time keeps a prefix of its log.
func roPast(r *Run, ui types.Type) {
	p := r.P
	dbT, txT := p.typ("txlogs.DB"), p.typ("txlogs.Tx")
	n := 0
	for _, root := range p.modFuncs() {
		if pkgOf(root) != "main" || root.Parent() != nil || p.reachesAny(root, "txlogs.Merge") || !p.reachesAny(root, "crypt.Decrypt") || p.fn("main.main") == root {
			continue
		}
		shortens := false
		for g := range p.reach(root) {
			if pkgOf(g) != "main" {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), dbT) && structFieldName(dbT, fa.Field) == "Log" {
							shortens = true
						}
					}
				}
			}
		}
		_ = shortens
		opens := false
		for _, c := range p.mainCallees() {
			opens = opens || c == root
		}
		if !opens {
			continue
		}
		n++
		cl := &Client{Name: "past", KeepFacts: true}
		cl.Track = func(string) bool { return true }
		cl.Inline = func(f *ssa.Function) (bool, bool) {
			if pkgOf(f) != "main" {
				return false, true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if _, isFA := in.(*ssa.FieldAddr); isFA && types.Identical(deref(v.(*ssa.FieldAddr).X.Type()), dbT) {
							return true, true
						}
						if x, ok := in.(*ssa.FieldAddr); ok && types.Identical(deref(x.X.Type()), txT) {
							return true, true
						}
						if x, ok := in.(*ssa.Field); ok && types.Identical(x.X.Type(), txT) {
							return true, true
						}
					}
				}
			}
			return p.reachesAny(f, "crypt.Decrypt", "txlogs.New"), true
		}
		m := newSim(p, cl)
		T := m.T
		given := func(x *Term) bool { return mentionsGlobal(x, p, "historyTime", "flagTime") }
		// changes are stamped in nanoseconds
		isTime := func(x *Term) bool {
			return given(x) && (x.op == OPure || x.op == OCall || x.op == OExtract) && x.any(func(y *Term) bool { return y.name == "(time.Time).UnixNano" })
		}
		// later: tx i of log is known to be after the time (or, neg, not)
		about := func(s *State, later bool, pred func(log, i *Term) bool) bool {
			for f, v := range s.facts {
				if f.op != OBin || len(f.args) != 2 {
					continue
				}
				for k := 0; k < 2; k++ {
					a, b := f.args[k], f.args[1-k]
					if !isTime(b) || given(a) {
						continue
					}
					var gt bool
					switch f.tok {
					case token.LSS: // args[0] < args[1]
						gt = (k == 1) == v // time < tx, or not (tx < time): tx >= time
						if k == 1 && v || k == 0 && v {
							gt = k == 1
						} else if k == 1 {
							gt = false // not (time < tx)
						} else {
							continue // tx >= time tells neither
						}
					default:
						continue
					}
					if gt != later {
						continue
					}
					log, i := txTimeOf(a)
					if log != nil && pred(log, i) {
						return true
					}
				}
			}
			return false
		}
		cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != OFieldAddr || addr.args[0].typ == nil || !types.Identical(deref(addr.args[0].typ), dbT) || structFieldName(dbT, addr.idx) != "Log" {
				return
			}
			r.Oblige("past", "log cut "+p.instrPos(in))
			lo, hi, base := T.Zero, (*Term)(nil), val
			if val.op == OSlice {
				base = val.args[0]
				lo, hi = val.args[1], val.args[2]
			}
			if hi == nil || lo != T.Zero && lo.op != ONone {
				r.Violate("past", "prefix", p.instrPos(in), "the log of a file opened at a time is not cut to its beginning", s.Trail(12))
				return
			}
			if !s.ProveLE(T.Len(base), hi) && !about(s, true, func(log, i *Term) bool { return log == base && i == hi }) {
				r.Violate("past", "first", p.instrPos(in), "the log is cut at a change that is not known to be later than the given time", s.Trail(12))
			}
			s.cl["cut"] = T.True
			if s.cl["rs"] == nil {
				s.cl["stale"] = T.True
			}
		}
		store0 := cl.OnStore
		cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OFieldAddr && addr.args[0].typ != nil && types.Identical(deref(addr.args[0].typ), dbT) {
				if f := structFieldName(dbT, addr.idx); f == "Snapshot" || f == "Version" {
					delete(s.cl, "rs")
					if s.IsNil(val) || val == T.Zero {
						s.cl["rs"+f] = T.True
						if s.cl["rsSnapshot"] != nil && s.cl["rsVersion"] != nil {
							s.cl["rs"] = T.True
							delete(s.cl, "stale")
						}
					} else {
						delete(s.cl, "rs"+f)
					}
				}
			}
			store0(s, addr, val, in)
		}
		cl.OnCall = func(ev *CallEv) {
			if ev.Fn == nil || ev.Fn.Signature.Recv() == nil || pkgOf(ev.Fn) != "txlogs" && pkgOf(ev.Fn) != "blobformat" {
				return
			}
			s := ev.S
			switch ev.Fn.Name() {
			case "ResetSnapshot":
				s.cl["rs"], s.cl["rsSnapshot"], s.cl["rsVersion"] = T.True, T.True, T.True
				delete(s.cl, "stale")
				return
			case "UpdateSnapshot":
				if s.cl["stale"] != nil {
					r.Violate("past", "stale", p.instrPos(ev.Instr), "the entries read before the log was cut are kept, what came after the given time is still shown", s.Trail(12))
				}
			}
			for _, k := range []string{"rs", "rsSnapshot", "rsVersion"} {
				delete(s.cl, k)
			}
		}
		readsTime := func(in ssa.Instruction) bool {
			switch fa := in.(type) {
			case *ssa.FieldAddr:
				return types.Identical(deref(fa.X.Type()), txT) && structFieldName(txT, fa.Field) == "Time"
			case *ssa.Field:
				return types.Identical(fa.X.Type(), txT) && structFieldName(txT, fa.Field) == "Time"
			}
			return false
		}
		inLoop := func(h *ssa.BasicBlock) bool {
			for b := range loopBody(h) {
				for _, in := range b.Instrs {
					if readsTime(in) {
						return true
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && pkgOf(c.Common().StaticCallee()) == "main" {
						for g := range p.reach(c.Common().StaticCallee()) {
							for _, gb := range g.Blocks {
								for _, in := range gb.Instrs {
									if pkgOf(g) == "main" && readsTime(in) {
										return true
									}
								}
							}
						}
					}
				}
			}
			return false
		}
		cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
			if inLoop(h) {
				s.cl["scan"] = T.True
			}
		}
		cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
			if !inLoop(h) {
				return
			}
			r.Oblige("past", "change kept "+p.instrPos(h.Instrs[0]))
			if !about(s, false, func(log, i *Term) bool { return true }) {
				r.Violate("past", "kept", p.instrPos(h.Instrs[0]), "a change can be kept that is not known to be at or before the given time", s.Trail(12))
			}
		}
		cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
			if !succeeds(s, res) {
				return
			}
			ctx := s.cl["ctx"]
			if ctx == nil {
				return
			}
			v := s.loadField(ctx, ptrTo(ui), "readOnly")
			if s.Known(v, false) {
				if s.cl["cut"] != nil {
					r.Violate("past", "cut-writable", p.instrPos(in), "the log is cut although the file is opened for writing", s.Trail(12))
				}
				return
			}
			opened := false
			for f, b := range s.facts {
				if f.op != OBin || f.tok != tokEQL {
					continue
				}
				for _, x := range f.args {
					if k, i := resOf(x, "txlogs.New"); k != nil && i == 0 {
						opened = opened || !b
					}
				}
			}
			r.Oblige("past", "opened "+p.instrPos(in))
			if s.cl["stale"] != nil {
				r.Violate("past", "stale", p.instrPos(in), "the entries read before the log was cut are kept, what came after the given time is still shown", s.Trail(12))
			}
			if opened && s.cl["scan"] == nil {
				r.Violate("past", "not-cut", p.instrPos(in), "a file can be opened read-only without its log being cut at the given time", s.Trail(12))
			}
		}
		m.Run(root, func(s *State, ps []*Term) {
			for i, q := range root.Params {
				if types.Identical(q.Type(), ptrTo(ui)) {
					s.cl["ctx"] = ps[i]
				}
			}
		})
		r.absorb(m, fnName(root))
	}
	if n == 0 {
		r.Violate("anchor", "open", "-", "main does not open the file through a function of its own", nil)
	}
	r.Need("past", 2)
}

// txTimeOf: x is the Time of element i of a log.
func txTimeOf(x *Term) (log, i *Term) {
	switch x.op {
	case OField:
		x = x.args[0]
	case OLoad:
		if x.args[0].op == OFieldAddr {
			x = x.args[0].args[0]
		}
	default:
		return nil, nil
	}
	if x.op == OLoad {
		x = x.args[0]
	}
	if x.op == OIndexAddr || x.op == OIndex {
		return x.args[0], x.args[1]
	}
	return nil, nil
}

// touchesMode: f is a small function about the mode or the command table.
func touchesMode(f *ssa.Function, ui, ct types.Type) bool {
	if len(f.Blocks) > 12 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				T := deref(x.X.Type())
				if types.Identical(T, ct) || types.Identical(T, ui) && structFieldName(T, x.Field) == "readOnly" {
					return true
				}
			case *ssa.Field:
				if types.Identical(x.X.Type(), ct) {
					return true
				}
			case *ssa.Lookup:
				if mp, ok := x.X.Type().Underlying().(*types.Map); ok && types.Identical(mp.Elem(), ct) {
					return true
				}
			}
		}
	}
	return false
}
