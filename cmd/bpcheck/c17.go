package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Title: "conflicts are decided by the user, each once", Run: runC17,
		Explanation: "The function that merges two logs and asks about conflicts is executed abstractly: what is recorded on which conflict under which answers, what the next merge is given, and what is returned is followed along every path."})
}

var resolvers = map[string]string{
	"(*txlogs.Conflict).Force":           "y",
	"(*txlogs.Conflict).DiscardInitial":  "r",
	"(*txlogs.Conflict).DiscardConflict": "d",
}

// conflictLoops lists the loop headers of f that go through a list of
// conflicts by index.
func conflictLoop(h *ssa.BasicBlock, conT types.Type) bool {
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !types.Identical(elemType(ia.X.Type()), conT) {
				continue
			}
			if phi, _ := inductive(h, ia.Index); phi != nil {
				return true
			}
		}
	}
	return false
}

// decides: the loop at h records decisions.
func decides(p *Prog, h *ssa.BasicBlock) bool {
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if resolvers[calleeName(c.Common())] != "" {
				return true
			}
			if f := c.Common().StaticCallee(); f != nil && pkgOf(f) == "main" {
				for n := range resolvers {
					if p.reachesAny(f, n) {
						return true
					}
				}
			}
		}
	}
	return false
}

func runC17(r *Run) {
	r.Rule("recorded: a decision is recorded only on a conflict the last merge reported, and at most once on each")
	r.Rule("answer: logs without a common start are joined only after a yes, the deletion is discarded only after R and the change only after D, and only for conflicts of that kind")
	r.Rule("asked: every conflict reported gets a decision before the logs are merged again, or merging is given up with an error")
	r.Rule("shown: before it is decided whether a deletion or a change is discarded, the key that was changed is shown")
	r.Rule("kept: the decisions made earlier are given to every later merge, together with the new ones and before them")
	r.Rule("outcome: without an error what is returned is the log of a merge that reported no conflict, or the local log if the remote one is empty")
	p := r.P
	conT, txT := p.typ("txlogs.Conflict"), p.typ("txlogs.Tx")
	if conT == nil || txT == nil || r.Anchor("txlogs.Merge") == nil {
		return
	}
	txs := types.NewSlice(txT)
	var roots []*ssa.Function
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" || f.Parent() != nil || !p.reachesAny(f, "txlogs.Merge") {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && types.Identical(rs.At(0).Type(), txs) && isErrorType(rs.At(1).Type()) && p.reachesAny(f, "(main.LineEditor).Line") {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	if len(roots) == 0 {
		r.Violate("anchor", "merge", "-", "no function merges two logs and asks about their conflicts", nil)
		return
	}
	// nobody else merges
	for _, f := range p.modFuncs() {
		in := false
		for _, g := range roots {
			if p.reach(g)[f] || f == g {
				in = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && calleeName(c.Common()) == "txlogs.Merge" {
					r.Oblige("outcome", "call "+p.instrPos(i))
					if !in {
						r.Violate("outcome", fnName(f), p.instrPos(i), "logs are merged without the conflicts being put to the user", nil)
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && resolvers[calleeName(c.Common())] != "" && !in {
					r.Violate("recorded", fnName(f), p.instrPos(i), "a decision is recorded outside of merging", nil)
				}
			}
		}
	}
	for _, f := range roots {
		conflictsOf(r, f, conT, txT)
	}
	r.Need("recorded", 3)
	r.Need("asked", 1)
	r.Need("kept", 1)
	r.Need("outcome", 3)
}

func conflictsOf(r *Run, root *ssa.Function, conT, txT types.Type) {
	p := r.P
	cl := &Client{Name: "conflicts", KeepFacts: false}
	cl.Track = func(n string) bool {
		return strings.HasSuffix(n, ".Line") || strings.HasPrefix(n, "strings.")
	}
	cl.Inline = func(f *ssa.Function) (bool, bool) { return pkgOf(f) == "main", true }
	m := newSim(p, cl)
	T := m.T
	sc := p.ByPkg["txlogs"].Pkg.Scope()
	kind := func(n string) *Term {
		if k, ok := sc.Lookup(n).(*types.Const); ok {
			return T.Const(k.Val(), k.Type())
		}
		return T.None
	}
	kRoot, kSet := kind("ConflictKindRoot"), kind("ConflictKindDeleteSet")
	kRootI, kSetI := T.mk(&Term{op: OConst, cv: kRoot.cv, typ: intT}), T.mk(&Term{op: OConst, cv: kSet.cv, typ: intT})
	txSet := kind("TxSetKey")
	// the conflict as it is stored in the list
	field := func(s *State, recv *Term, path ...string) *Term {
		x := s.Load(recv, conT)
		t := conT
		for _, n := range path {
			x = s.fieldOf(x, t, n)
			if x == nil {
				return nil
			}
			if n == "Initial" || n == "Conflict" {
				t = txT
			}
		}
		return x
	}
	isKind := func(s *State, recv *Term, want *Term, val bool) bool {
		k := field(s, recv, "Kind")
		return k != nil && s.Known(T.Eq(k, want), val)
	}
	isSet := func(s *State, recv *Term) bool {
		return isKind(s, recv, kSetI, true) || isKind(s, recv, kRootI, false)
	}
	isRoot := func(s *State, recv *Term) bool {
		return isKind(s, recv, kRootI, true) || isKind(s, recv, kSetI, false)
	}
	// answered: the last line read is known to be w
	answered := func(s *State, w string) bool {
		line := s.cl["line"]
		if line == nil {
			return false
		}
		for f, v := range s.facts {
			if !v || f.op != OBin || f.tok != token.EQL {
				continue
			}
			for i := 0; i < 2; i++ {
				c, ok := f.args[i].strVal()
				if !ok || c == "" {
					continue
				}
				c = strings.ToLower(c)
				if f.args[1-i].contains(line) && (c == w || w == "y" && c == "yes") {
					return true
				}
			}
		}
		return false
	}
	inList := func(s *State, recv *Term) bool {
		return recv.op == OIndexAddr && s.cl["confs"] != nil && recv.args[0] == s.cl["confs"]
	}
	cl.OnCall = func(ev *CallEv) {
		s := ev.S
		where := p.instrPos(ev.Instr)
		if ev.Name == "txlogs.Merge" {
			r.Oblige("kept", where)
			prev, res := s.cl["confs"], ev.Args[2]
			if prev == nil {
				if res.op != ONil && !s.IsNil(res) && !s.Known(T.Eq(T.Len(res), T.Zero), true) {
					r.Violate("kept", fnName(ev.Instr.Parent())+"|first", where, "the first merge is given decisions nobody made", s.Trail(8))
				}
			} else if s.cl["added"] == nil {
				r.Violate("kept", fnName(ev.Instr.Parent())+"|dropped", where, "the logs are merged again without the decisions just made being kept", s.Trail(12))
			}
			delete(s.cl, "added")
			keptAll(r, ev.Instr)
			return
		}
		if resolvers[ev.Name] == "" {
			return
		}
		want := resolvers[ev.Name]
		recv := ev.Args[0]
		if s.cl["added"] != nil && s.cl["each"] == nil {
			r.Violate("kept", fnName(ev.Instr.Parent())+"|late", where, "the decision is recorded after the conflict was copied to those that are kept", s.Trail(10))
		}
		r.Oblige("recorded", ev.Name+" "+where)
		ev.Result = T.None
		if !inList(s, recv) {
			r.Violate("recorded", fnName(ev.Instr.Parent())+"|copy", where, "the decision is not recorded in the list of conflicts the merge reported", s.Trail(10))
			return
		}
		if s.cl["answered"] == recv {
			r.Violate("recorded", fnName(ev.Instr.Parent())+"|twice", where, "a conflict that was decided is put to the user again", s.Trail(14))
		}
		s.cl["answered"] = recv
		if want == "y" {
			if !isRoot(s, recv) {
				r.Violate("answer", fnName(ev.Instr.Parent())+"|kind", where, "a conflict is forced that is not about logs without a common start", s.Trail(10))
			}
		} else {
			if !isSet(s, recv) {
				r.Violate("answer", fnName(ev.Instr.Parent())+"|kind", where, "a side is discarded of a conflict that is not about a deletion", s.Trail(10))
			}
			r.Oblige("shown", ev.Name+" "+where)
			ck := field(s, recv, "Conflict", "Kind")
			if s.cl["shown"] == nil && !(ck != nil && s.Known(T.Eq(ck, txSet), false)) {
				r.Violate("shown", fnName(ev.Instr.Parent()), where, "it is decided which side to discard without the change having been shown", s.Trail(14))
			}
		}
		r.Oblige("answer", ev.Name+" "+where)
		if !answered(s, want) {
			r.Violate("answer", fnName(ev.Instr.Parent())+"|"+want, where, "this decision is recorded without the answer that stands for it ("+want+") having been given", s.Trail(12))
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		switch {
		case ev.Name == "txlogs.Merge":
			c := callOf(res.args[0])
			s.cl["log"], s.cl["confs"] = T.Extract(c, 0, res.args[0].typ), T.Extract(c, 1, res.args[1].typ)
			delete(s.cl, "answered")
		case ev.Name == "(main.LineEditor).Line":
			c := callOf(res.args[0])
			s.cl["line"] = T.Extract(c, 0, res.args[0].typ)
			s.cl["lineerr"] = T.Extract(c, 1, res.args[1].typ)
		}
	}
	isKey := func(x *Term) bool {
		for _, st := range []struct {
			t types.Type
			f string
		}{{txT, "Key"}, {conT, "Conflict"}} {
			if x.op == OLoad {
				x = x.args[0]
			}
			if (x.op != OField && x.op != OFieldAddr) || x.idx != fieldIndex(st.t, st.f) {
				return false
			}
			x = x.args[0]
		}
		return x.op == OIndexAddr || x.op == OLoad && x.args[0].op == OIndexAddr
	}
	cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if s.cl["confs"] != nil && s.cl["shown"] == nil && (val.op == OIface || val.op == OStruct) && val.contains(s.cl["confs"]) && val.any(isKey) {
			if root := addrRoot(addr); root != nil {
				if at, ok := root.leaf.at.(ssa.Value); !ok || !types.Identical(deref(at.Type()), conT) {
					s.cl["shown"] = T.True
				}
			}
		}
	}
	loops := map[*ssa.BasicBlock]int{}
	isLoop := func(h *ssa.BasicBlock) bool {
		if loops[h] == 0 {
			loops[h] = 1
			if conflictLoop(h, conT) && decides(p, h) {
				loops[h] = 2
			}
		}
		return loops[h] == 2
	}
	cl.OnAppend = func(s *State, out *Term, in ssa.Instruction) {
		confs := s.cl["confs"]
		if confs == nil || len(out.args) < 2 || out.typ == nil || !types.Identical(elemType(out.typ), conT) {
			return
		}
		for _, x := range out.args[1:] {
			switch {
			case x == confs:
				s.cl["added"] = T.True
			case x.contains(confs):
				inside := false
				for h := in.Block(); h != nil; h = h.Idom() {
					inside = inside || isLoop(h) && loopBody(h)[in.Block()]
				}
				switch {
				case !inside:
					s.cl["added"] = T.True
				case s.cl["answered"] != nil || s.cl["other"] != nil:
					s.cl["added"], s.cl["each"] = T.True, T.True
				default:
					r.Violate("kept", fnName(in.Parent())+"|early", p.instrPos(in), "a conflict is copied to those that are kept before it is decided", s.Trail(10))
				}
			}
		}
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		if !isLoop(h) {
			return
		}
		r.Oblige("asked", "loop "+p.instrPos(h.Instrs[len(h.Instrs)-1]))
		if s.cl["answered"] == nil && s.cl["other"] == nil {
			r.Violate("asked", fnName(h.Parent()), p.instrPos(h.Instrs[len(h.Instrs)-1]), "a conflict is passed over without a decision", s.Trail(14))
		}
	}
	cl.OnWiden = func(s *State, leaf *Term, h *ssa.BasicBlock, vals ...*Term) {
		for _, k := range []string{"confs", "log"} {
			if x := s.cl[k]; x != nil && vals[len(vals)-1] == x {
				s.cl[k] = leaf
			}
		}
	}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		if isLoop(h) {
			for _, k := range []string{"answered", "shown", "line", "other"} {
				delete(s.cl, k)
			}
		}
	}
	cl.OnBranch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		// conflicts are of one of two kinds
		for f, v := range s.facts {
			if v || f.op != OBin || f.tok != token.EQL {
				continue
			}
			for i := 0; i < 2; i++ {
				if f.args[i] == kSetI || f.args[i] == kRootI {
					o := kSetI
					if f.args[i] == kSetI {
						o = kRootI
					}
					if s.Known(T.Eq(f.args[1-i], o), false) {
						s.cl["other"] = T.True
					}
				}
			}
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		where := p.instrPos(in)
		r.Oblige("outcome", where)
		if s.NonNil(res[1]) {
			return
		}
		if !s.IsNil(res[1]) {
			r.Violate("outcome", "undecided|"+fnName(root), where, "whether there is an error is not known", s.Trail(10))
			return
		}
		if s.cl["confs"] == nil {
			empty := false
			for i, x := range root.Params {
				t := T.Param(i, root, x.Type())
				if types.Identical(x.Type(), types.NewSlice(txT)) && t != res[0] && s.Known(T.Eq(T.Len(t), T.Zero), true) {
					empty = true
				}
			}
			if !empty || res[0].op != OParam {
				r.Violate("outcome", "unmerged|"+fnName(root), where, "a log is returned as merged that nothing was merged into", s.Trail(10))
			}
			return
		}
		if res[0] != s.cl["log"] {
			r.Violate("outcome", "log|"+fnName(root), where, "something other than the log of the last merge is returned: "+short(res[0]), s.Trail(10))
		}
		if !s.Known(T.Eq(T.Len(s.cl["confs"]), T.Zero), true) {
			r.Violate("outcome", "open|"+fnName(root), where, "the merge is taken as done although it may have reported conflicts", s.Trail(10))
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}

// keptAll: the decisions given to a merge are those given to the one before
// with others added behind them.
func keptAll(r *Run, in ssa.Instruction) {
	c := in.(ssa.CallInstruction)
	seen := map[ssa.Value]bool{}
	bad := ""
	var bases []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
				bases = append(bases, x.Common().Args[0])
				walk(x.Common().Args[0])
				return
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				bad = "what a merge is given comes from " + calleeName(x.Common())
			}
		case *ssa.MakeSlice:
			if k, ok := x.Len.(*ssa.Const); !ok || k.Int64() != 0 {
				bad = "what a merge is given does not begin empty"
			}
		case *ssa.Extract:
			bad = "what a merge is given are only the conflicts of the merge before"
		case *ssa.Slice:
			if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "makeslice" {
				return
			}
			bad = "some of the decisions are cut off again"
		default:
			bad = "what a merge is given cannot be followed"
		}
	}
	walk(c.Common().Args[2])
	for _, b := range bases {
		// a base that is only ever empty forgets what was there
		if k, ok := b.(*ssa.Const); ok && k.IsNil() {
			bad = "the decisions made earlier are forgotten"
		}
	}
	if bad != "" {
		r.Violate("kept", fnName(in.Parent())+"|earlier", r.P.instrPos(in), bad, nil)
	}
}
