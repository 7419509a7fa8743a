package main

import (
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20", Title: "a change that was refused is not announced as made", Run: runC20,
		Explanation: "Every function of the program that asks for a change of the entries which can be refused is executed abstractly for any entries and answers. Each such call gives rise to an obligation for its error: on every path on which it is not known to be nil the function must hand on an error, or print something that it does not print where the error is nil, and nothing of what it prints after it only where the error is nil."})
}

func runC20(r *Run) {
	r.Rule("handled: where a change was refused or failed, an error is handed on or a message is printed that is not printed where it was made")
	r.Rule("announced: what is printed after a change was made is not printed where it was refused")
	p := r.P
	a := &announce{r: r, fallible: map[string]bool{}, takes: map[*ssa.Function]bool{}}
	for _, f := range p.modFuncs() {
		if f.Blocks == nil || errResult(f.Signature) < 0 || f.Synthetic != "" {
			continue
		}
		if q := pkgOf(f); q != "blobformat" && q != "txlogs" && q != "main" {
			continue
		}
		if p.reachesAny(f, storeMutators...) {
			a.takes[f] = true
		}
	}
	var roots []*ssa.Function
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" || f.Blocks == nil || f.Synthetic != "" || f.Name() == "main" || a.inlined(f) {
			continue
		}
		if a.asks(f, map[*ssa.Function]bool{}) {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	for _, f := range roots {
		// what a helper says when it fails counts for its callers: it is looked
		// into where it is not enough that it hands on an error
		a.inside = map[*ssa.Function]bool{}
		for {
			q := newRun(r.ID, r.Tier, p)
			more := a.run(f, q, false)
			if q.viol["budget|"+fnName(f)] != nil {
				q = newRun(r.ID, r.Tier, p)
				more = a.run(f, q, true)
			}
			if len(more) == 0 || len(a.inside) > 3 {
				r.take(q)
				for k, v := range q.viol {
					r.viol[k] = v
				}
				break
			}
			for _, g := range more {
				a.inside[g] = true
			}
		}
	}
	r.Need("handled", 15)
	r.Need("announced", 5)
}

type announce struct {
	r        *Run
	takes    map[*ssa.Function]bool
	inside   map[*ssa.Function]bool
	fallible map[string]bool
}

// asks: f calls something that changes the entries and can fail.
func (a *announce) asks(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, t := range a.r.P.callTargets(c) {
				if a.takes[t] || a.inlined(t) && a.asks(t, seen) {
					return true
				}
			}
		}
	}
	return false
}

// inlined: a helper of the program that changes something without handing on
// an error: it is judged in its callers.
func (a *announce) inlined(f *ssa.Function) bool {
	p := a.r.P
	return pkgOf(f) == "main" && !a.takes[f] && f.Blocks != nil && f.Name() != "main" && f.Name() != "init" &&
		errResult(f.Signature) < 0 && p.reachesAny(f, storeMutators...) && (onlyCalled(p, f) || localClosure(p, f))
}

// canFail: the call can return an error, given what is fixed about it.
func (a *announce) canFail(f *ssa.Function, args []*Term, s *State) bool {
	if pkgOf(f) == "main" {
		return true
	}
	key := fnName(f)
	fixed := make([]string, len(args))
	has := make([]bool, len(args))
	for i, x := range args {
		if v, ok := s.constOf(x); ok {
			fixed[i], has[i] = v, true
			key += "|" + strconv.Itoa(i) + "=" + v
		}
	}
	if v, ok := a.fallible[key]; ok {
		return v
	}
	p := a.r.P
	cl := &Client{Name: "fails", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(g *ssa.Function) (bool, bool) { return pkgOf(g) == "blobformat", true }
	m := newSim(p, cl)
	T := m.T
	elems := map[*ssa.Global][]string{}
	in := func(g *ssa.Global, k string, fold bool) bool {
		es, ok := elems[g]
		if !ok {
			es, _ = p.constElems(g)
			elems[g] = es
		}
		for _, e := range es {
			if e == k || fold && strings.EqualFold(e, k) {
				return true
			}
		}
		return len(es) == 0
	}
	cl.OnBranch = func(s *State, c *Term, v bool, _ ssa.Instruction) {
		for c.op == ONot {
			c, v = c.args[0], !v
		}
		if !v {
			return
		}
		var x, y *Term
		fold := false
		if l, m, ok := foldCall(c); ok {
			x, y, fold = l, m, true
		} else if c.op == OBin && c.tok == token.EQL {
			x, y = c.args[0], c.args[1]
		} else if c.op == OLookup || c.op == OExtract && c.args[0].op == OLookup {
			if c.op == OExtract {
				c = c.args[0]
			}
			if k, ok := c.args[1].strVal(); ok {
				if g := globalOf(c.args[0]); g != nil && !in(g, k, false) {
					s.cl["dead"] = T.True
				}
			}
			return
		} else {
			return
		}
		for i := 0; i < 2; i++ {
			for (x.op == OCall || x.op == OPure) && x.name == "strings.ToLower" {
				x, fold = x.args[0], true
			}
			if k, ok := y.strVal(); ok && x.op == OLoad && x.args[0].op == OIndexAddr {
				if g := globalOf(x.args[0].args[0]); g != nil && !in(g, k, fold) {
					s.cl["dead"] = T.True
				}
			}
			x, y = y, x
		}
	}
	fails := false
	cl.OnExit = func(s *State, res []*Term, _ ssa.Instruction) {
		if s.cl["dead"] == nil && !s.IsNil(res[errResult(f.Signature)]) {
			fails = true
		}
	}
	m.Bind = func(i int, old *Term) *Term {
		if i < len(has) && has[i] {
			return T.Str(fixed[i])
		}
		return old
	}
	m.Run(f, nil)
	if m.Exceeded {
		fails = true
	}
	a.fallible[key] = fails
	return fails
}

// constOf: the string x is, or is known to be equal to.
func (s *State) constOf(x *Term) (string, bool) {
	if v, ok := x.strVal(); ok {
		return v, true
	}
	for f, v := range s.facts {
		if !v || f.op != OBin || f.tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.args[i] == x {
				if k, ok := f.args[1-i].strVal(); ok {
					return k, true
				}
			}
		}
	}
	return "", false
}

// sentinel: the error variable e is found to be.
func sentinel(f, e *Term) string {
	if f.op == OBin && f.tok == token.EQL {
		for i := 0; i < 2; i++ {
			if f.args[i] == e && f.args[1-i].op == OSentinel {
				return f.args[1-i].name
			}
		}
	}
	return ""
}

func prints(n string) bool {
	switch n {
	case "io.WriteString", "(*os.File).Write", "(*os.File).WriteString", "println", "print":
		return true
	}
	for _, q := range []string{"fmt.Print", "fmt.Fprint", "log.Print", "(*log.Logger).Print"} {
		if strings.HasPrefix(n, q) {
			return true
		}
	}
	_, n, _ = strings.Cut(n, "/color.Color).")
	return strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint")
}

// speaks: the call prints something, directly or in a helper.
func (a *announce) speaks(ev *CallEv) (direct, ok bool) {
	if prints(ev.Name) {
		return true, true
	}
	if ev.Fn == nil || !a.r.P.inModule[ev.Fn] || a.takes[ev.Fn] {
		return false, false
	}
	for n := range a.r.P.funcEffects(ev.Fn).calls {
		if prints(n) {
			return ev.Fn.Signature.Results().Len() == 0, true
		}
	}
	return false, false
}

func (a *announce) run(root *ssa.Function, r *Run, coarse bool) (more []*ssa.Function) {
	p := r.P
	cl := &Client{Name: "announce", KeepFacts: true, Coarse: coarse}
	cl.Facts = func(f *Term) bool {
		str := false
		if f.op == OBin && f.tok == token.EQL {
			for _, x := range f.args {
				_, ok := x.strVal()
				str = str || ok
			}
		}
		return str || f.any(func(x *Term) bool { return isErrorType(x.typ) })
	}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) { return f != root && (a.inlined(f) || a.inside[f]), true }
	m := newSim(p, cl)
	if !coarse {
		m.Budget = 60000
	}
	T := m.T
	type fail struct {
		out   []string
		ok    bool // handed on
		path  []string
		known bool
		where string
	}
	sites := map[string]ssa.Instruction{}
	of := map[string]*ssa.Function{}
	good := map[string]map[string]bool{} // printed after the change was made
	fails := map[string]map[string]*fail{}
	direct := map[string]bool{}
	inDefer := func(s *State, in ssa.Instruction) bool {
		if _, ok := in.(*ssa.Call); !ok {
			return true
		}
		for _, f := range s.frames {
			if f.isDefer {
				return true
			}
		}
		return false
	}
	settle := func(s *State, k string, handed bool, where string) {
		e := s.cl["e:"+k]
		var out []string
		for _, o := range sortedKeys(s.cl) {
			if strings.HasPrefix(o, "o:"+k+":") {
				out = append(out, strings.TrimPrefix(o, "o:"+k+":"))
				delete(s.cl, o)
			}
		}
		delete(s.cl, "e:"+k)
		told := false // something was found out about the error
		for f, v := range s.facts {
			if v && f.contains(e) {
				told = true
				if strings.HasPrefix(sentinel(f, e), "main.") {
					return // the user wants to leave
				}
			}
		}
		if s.IsNil(e) || !told && !s.NonNil(e) {
			if good[k] == nil {
				good[k] = map[string]bool{}
			}
			for _, o := range out {
				good[k][o] = true
			}
		}
		if s.IsNil(e) {
			return
		}
		if fails[k] == nil {
			fails[k] = map[string]*fail{}
		}
		id := strings.Join(out, ",") + strconv.FormatBool(handed) + strconv.FormatBool(told || s.NonNil(e))
		if fails[k][id] == nil {
			fails[k][id] = &fail{out: out, ok: handed, path: s.Trail(12), known: told || s.NonNil(e), where: where}
		}
	}
	pending := func(s *State) (ks []string) {
		for _, k := range sortedKeys(s.cl) {
			if strings.HasPrefix(k, "e:") {
				ks = append(ks, k[2:])
			}
		}
		return ks
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		if d, ok := a.speaks(ev); ok && !inDefer(s, ev.Instr) {
			o := p.instrPos(ev.Instr)
			direct[o] = direct[o] || d
			for _, k := range pending(s) {
				s.cl["o:"+k+":"+o] = T.True
			}
		}
		c, ok := ev.Instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		var f *ssa.Function
		for _, t := range p.callTargets(c) {
			if a.takes[t] && !a.inside[t] {
				f = t
			}
		}
		if f == nil {
			return
		}
		r.Oblige("handled", fnName(root)+": "+fnName(f)+" "+p.instrPos(ev.Instr))
		if !a.canFail(f, ev.Args, s) {
			return
		}
		k := p.instrPos(ev.Instr) + "#" + fnName(f)
		sites[k], of[k] = ev.Instr, f
		for o := range s.cl {
			if strings.HasPrefix(o, "o:"+k+":") {
				delete(s.cl, o)
			}
		}
		e := res
		if f.Signature.Results().Len() > 1 {
			e = errOf(T, res, errResult(f.Signature))
		}
		if _, ok := ev.Instr.(*ssa.Call); !ok || e == nil {
			e = T.None
		}
		s.cl["e:"+k] = e
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		body := loopBody(h)
		for _, k := range pending(s) {
			if body[sites[k].Block()] {
				said := false
				for f, v := range s.facts {
					said = said || v && strings.HasPrefix(sentinel(f, s.cl["e:"+k]), "main.")
				}
				for o := range s.cl {
					said = said || strings.HasPrefix(o, "o:"+k+":")
				}
				if said || s.IsNil(s.cl["e:"+k]) {
					settle(s, k, false, p.instrPos(sites[k]))
				}
			}
		}
	}
	done := func(s *State, res []*Term, in ssa.Instruction, handed bool) {
		for _, k := range pending(s) {
			e := s.cl["e:"+k]
			h := handed
			if i := errResult(root.Signature); i >= 0 && i < len(res) {
				h = h || res[i] == e || s.NonNil(res[i]) || res[i].contains(e)
			}
			settle(s, k, h, p.instrPos(in))
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) { done(s, res, in, false) }
	cl.OnOsExit = func(s *State, code *Term, in ssa.Instruction) {
		n, ok := int64(1), true
		if code != nil {
			n, ok = code.intVal()
		}
		done(s, nil, in, ok && n != 0)
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
	for _, k := range sortedKeys(sites) {
		what := k[strings.Index(k, "#")+1:]
		for _, id := range sortedKeys(fails[k]) {
			f := fails[k][id]
			r.Oblige("announced", fnName(root)+" "+k)
			own := false
			both := ""
			for _, o := range f.out {
				if good[k][o] {
					if direct[o] {
						both = o
					}
				} else {
					own = true
				}
			}
			if !f.ok && !own {
				msg := "when " + what + " fails this is not reported: no error is handed on and nothing is printed that is not printed when it succeeds"
				if g := of[k]; pkgOf(g) == "main" && g.Parent() == nil && onlyCalled(p, g) && len(g.Blocks) <= 40 {
					more = append(more, g)
				}
				r.Violate("handled", fnName(root)+"|"+what, p.instrPos(sites[k]), msg, f.path)
			} else if both != "" && f.known {
				r.Violate("announced", fnName(root)+"|"+what, both, "what is printed when "+what+" succeeded is printed when it failed too", f.path)
			}
		}
	}
	return more
}
