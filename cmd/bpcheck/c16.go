package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Title: "merging loses and invents nothing", Run: runC16,
		Explanation: "Merge is executed abstractly for arbitrary logs and resolutions, with ghost counters of how many entries of either log were taken so far. Every append to the result must be the next entry of one of the logs, in time order, every removal must be justified by a resolution for that very conflict, every entry added after its entry's deletion must raise a conflict, and success is possible only when both logs were used up."})
}

type mergeRun struct {
	r              *Run
	a, b, resolved *Term
	txT, conT      types.Type
	cDel, cForce   *Term
	cDiscI, cDiscC *Term
	acc            *Term // accumulator before widening
	conf           *Term
}

func runC16(r *Run) {
	r.Rule("next: every entry put into the result is the next unused entry of one of the logs; an entry both logs have at their heads is taken once from both")
	r.Rule("order: while both logs have entries left the one that is not later comes first")
	r.Rule("removal: an entry is taken back only if it was the last one added and a resolution for this conflict says so")
	r.Rule("conflict: an entry added after the deletion of the same entry raises a conflict, unless that conflict is raised or resolved already; deletions are noted")
	r.Rule("root: logs that do not start with the same entry raise a conflict, unless forced")
	r.Rule("complete: the merged log is returned only when both logs are used up and no conflict was raised; otherwise the conflicts are returned and no log")
	r.Rule("identical: the shortcut returns the log given, and only if both logs have the same length and the same first and last instant")
	r.Rule("unresolved: conflicts given without a resolution are returned as they are")
	fn := r.Anchor("txlogs.Merge")
	if fn == nil {
		return
	}
	mr := &mergeRun{r: r, txT: r.P.typ("txlogs.Tx"), conT: r.P.typ("txlogs.Conflict")}
	if mr.txT == nil || mr.conT == nil || len(fn.Params) != 3 || fn.Signature.Results().Len() != 2 || fieldIndex(mr.conT, "resolution") < 0 {
		r.Violate("anchor", "Merge", "-", "Merge, Tx or Conflict no longer has the shape this check knows", nil)
		return
	}
	mr.run(fn)
	for rule, n := range map[string]int{"next": 4, "order": 1, "removal": 2, "conflict": 3, "root": 1, "complete": 2, "identical": 1, "unresolved": 1} {
		r.Need(rule, n)
	}
}

func (mr *mergeRun) run(fn *ssa.Function) {
	r := mr.r
	scope := r.P.ByPkg["txlogs"].Pkg.Scope()
	c := &Client{Name: "Merge", DropFrames: true, ElemsOf: true}
	c.Inline = func(*ssa.Function) (bool, bool) { return true, true }
	c.Track = func(string) bool { return true }
	m := newSim(r.P, c)
	T := m.T
	con := func(n string) *Term {
		k, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			r.Violate("anchor", n, "-", "the constant "+n+" is not in the source", nil)
			return T.None
		}
		return T.Const(k.Val(), intT)
	}
	if k, ok := scope.Lookup("TxDelete").(*types.Const); ok {
		mr.cDel = T.Const(k.Val(), k.Type())
	}
	mr.cForce, mr.cDiscI, mr.cDiscC = con("resolveForce"), con("resolveDiscardInitial"), con("resolveDiscardConflict")
	bad := func(s *State, rule, key string, in ssa.Instruction, msg string) {
		r.Violate(rule, key, r.P.instrPos(in), msg, s.Trail(14))
	}
	txf := func(s *State, tx *Term, f string) *Term { return s.fieldOf(tx, mr.txT, f) }
	at := func(s *State, log, i *Term) *Term {
		return s.Load(T.IndexAddr(log, i, ptrTo(mr.txT)), mr.txT)
	}
	// mentions: x contains a lookup of key u
	var mentions func(x, u *Term, d int) bool
	mentions = func(x, u *Term, d int) bool {
		if x == nil || d > 14 {
			return false
		}
		if (x.op == OLookup || x.op == OLookupOk) && len(x.args) > 1 && x.args[1] == u {
			return true
		}
		for _, y := range x.args {
			if mentions(y, u, d+1) {
				return true
			}
		}
		return false
	}
	// conflictOf: x is field f.g of a conflict among list; returns the conflict
	var rootedIn func(x, list *Term, d int) bool
	rootedIn = func(x, list *Term, d int) bool {
		if x == list {
			return true
		}
		if d > 14 || len(x.args) == 0 {
			return false
		}
		switch x.op {
		case OLoad, OField, OFieldAddr, OIndexAddr, OIndex, OSlice:
			return rootedIn(x.args[0], list, d+1)
		}
		return false
	}
	settle := func(s *State) {
		p, ok := s.cl["pend"]
		if !ok {
			return
		}
		u, kind := txf(s, p.args[0], "UUID"), txf(s, p.args[0], "Kind")
		notDel := s.Known(T.Eq(kind, mr.cDel), false)
		if !notDel {
			return
		}
		if p.args[1] == T.True {
			delete(s.cl, "pend") // in both logs
			return
		}
		if s.cl["noted"] == nil {
			delete(s.cl, "pend") // nothing was deleted so far
			return
		}
		for f, v := range s.facts {
			if f.op == OLookupOk && f.args[1] == u && !v {
				delete(s.cl, "pend")
				return
			}
		}
	}
	// firstTime: x is the time of the first transaction of one of the
	// resolutions given
	firstTime := func(x *Term) bool {
		if !rootedIn(x, mr.resolved, 0) {
			return false
		}
		path := []int{fieldIndex(mr.txT, "Time"), fieldIndex(mr.conT, "Initial")}
		for n := 0; n < len(path); {
			switch x.op {
			case OLoad:
				x = x.args[0]
				continue
			case OField, OFieldAddr:
				if x.idx != path[n] {
					return false
				}
				n++
				x = x.args[0]
			default:
				return false
			}
		}
		return true
	}
	// resolution facts: is there one for this removal
	justified := func(s *State, x *Term) bool {
		tm, u, kind := txf(s, x, "Time"), txf(s, x, "UUID"), txf(s, x, "Kind")
		di, dc := false, false
		for f, v := range s.facts {
			if !v || f.op != OBin || f.tok != tokEQL {
				continue
			}
			for i := 0; i < 2; i++ {
				k, o := f.args[i], f.args[1-i]
				if rootedIn(o, mr.resolved, 0) && (o.op == OLoad || o.op == OField) {
					di = di || k == mr.cDiscI
					dc = dc || k == mr.cDiscC
				}
			}
		}
		for f, v := range s.facts {
			if !v || f.op != OBin || f.tok != tokEQL {
				continue
			}
			for i := 0; i < 2; i++ {
				k, o := f.args[i], f.args[1-i]
				if !firstTime(o) {
					continue
				}
				if di && k == tm && s.Known(T.Eq(kind, mr.cDel), true) {
					return true
				}
				if dc && mentions(k, u, 0) {
					return true
				}
			}
		}
		return false
	}
	forced := func(s *State) bool {
		for f, v := range s.facts {
			if v && f.op == OBin && f.tok == tokEQL && (f.args[0] == mr.cForce && rootedIn(f.args[1], mr.resolved, 0) || f.args[1] == mr.cForce && rootedIn(f.args[0], mr.resolved, 0)) {
				return true
			}
		}
		return false
	}
	c.OnBranch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		if forced(s) {
			s.cl["forced"] = T.True
		}
		p, ok := s.cl["pend"]
		if !ok {
			return
		}
		settle(s)
		if justified(s, p.args[0]) {
			s.cl["just"] = T.True
		}
		// an earlier conflict about the same deletion
		u := txf(s, p.args[0], "UUID")
		for f, v := range s.facts {
			if v && f.op == OBin && f.tok == tokEQL {
				for i := 0; i < 2; i++ {
					if mentions(f.args[i], u, 0) {
						if rt := s.cl["root"]; rt != nil && rt.args[0] == f.args[1-i] {
							delete(s.cl, "pend")
							return
						}
						if l := s.conflictList(f.args[1-i], mr.conT); l != nil && !rootedIn(f.args[1-i], mr.resolved, 0) {
							delete(s.cl, "pend")
							return
						}
					}
				}
			}
		}
	}
	c.OnMapUpdate = func(s *State, mp, k, v *Term, in ssa.Instruction) {
		s.cl["noted"] = T.True
		p, ok := s.cl["pend"]
		if !ok {
			return
		}
		if u := txf(s, p.args[0], "UUID"); k == u && v != T.None {
			r.Oblige("conflict", "deletion noted at "+r.P.instrPos(in))
			if !s.Known(T.Eq(txf(s, p.args[0], "Kind"), mr.cDel), true) {
				bad(s, "conflict", "noted", in, "an entry is marked deleted by something that is not a deletion")
			}
			if a := s.cl["acc"]; a != nil && a.op == OAppend && !s.eqInt(v, T.Len(a.args[0])) {
				bad(s, "conflict", "index", in, "the position noted for the deletion is not where it is: "+short(v))
			}
			delete(s.cl, "pend")
		}
	}
	unsettled := func(s *State, in ssa.Instruction) {
		settle(s)
		if p, ok := s.cl["pend"]; ok {
			bad(s, "conflict", "unchecked", in, "an entry goes into the result without being checked against an earlier deletion: "+short(p.args[0]))
			delete(s.cl, "pend")
		}
	}
	// how many entries of a log were used: the set of terms with that value
	members := func(s *State, g string) []*Term {
		if t := s.cl[g]; t != nil {
			return t.args
		}
		return nil
	}
	isCount := func(s *State, g string, i *Term) bool {
		for _, x := range members(s, g) {
			if x == i || s.eqInt(x, i) {
				return true
			}
		}
		return false
	}
	usedUp := func(s *State, g string, log *Term) bool {
		if s.cl["done:"+g] != nil {
			return true
		}
		for _, x := range members(s, g) {
			if s.ProveLE(T.Len(log), x) {
				return true
			}
		}
		return false
	}
	tick := func(s *State, g string) {
		var n []*Term
		for _, x := range members(s, g) {
			n = append(n, T.addConst(x, 1, intT))
		}
		s.cl[g] = T.Tuple(n...)
		s.cl["some:"+g] = T.True
		s.cl["ticked"], s.cl["ticked:"+g] = T.True, T.True
	}
	heads := func(s *State, g string, log *Term) (out []*Term) {
		for _, x := range members(s, g) {
			out = append(out, at(s, log, x))
		}
		return
	}
	isHead := func(s *State, x *Term, g string, log *Term) bool {
		for _, y := range heads(s, g, log) {
			if mr.sameTx(s, x, y) {
				return true
			}
		}
		return false
	}
	rootNeeded := func(s *State) bool {
		return s.cl["some:ca"] == nil && s.cl["some:cb"] == nil && !usedUp(s, "ca", mr.a) && !usedUp(s, "cb", mr.b)
	}
	c.OnAppend = func(s *State, out *Term, in ssa.Instruction) {
		sl, ok := out.typ.Underlying().(*types.Slice)
		if !ok {
			return
		}
		if types.Identical(sl.Elem(), mr.conT) {
			r.Oblige("conflict", "raised at "+r.P.instrPos(in))
			if out.op != OAppend || len(out.args) != 2 {
				bad(s, "conflict", "raise", in, "conflicts are not added one by one")
				return
			}
			if l, ok := s.cl["conflicts"]; ok && out.args[0] != l {
				bad(s, "conflict", "lost", in, "a conflict raised earlier is dropped")
			}
			s.cl["conflicts"] = out
			x := out.args[1]
			ini, cf := s.fieldOf(x, mr.conT, "Initial"), s.fieldOf(x, mr.conT, "Conflict")
			p, have := s.cl["pend"]
			if have && mr.sameTx(s, cf, p.args[0]) && mentions(ini, txf(s, p.args[0], "UUID"), 0) {
				delete(s.cl, "pend")
				return
			}
			if isHead(s, ini, "ca", mr.a) && isHead(s, cf, "cb", mr.b) || isHead(s, ini, "cb", mr.b) && isHead(s, cf, "ca", mr.a) {
				if !rootNeeded(s) {
					bad(s, "root", "late", in, "a conflict about the start of the logs is raised although they share it")
				}
				r.Oblige("root", "raised at "+r.P.instrPos(in))
				s.cl["root"] = T.Tuple(txf(s, ini, "Time"))
				return
			}
			bad(s, "conflict", "raise", in, "a conflict is raised that is neither about the start of the logs nor about the entry just added and the deletion of its uuid")
			return
		}
		if !types.Identical(sl.Elem(), mr.txT) {
			return
		}
		where := r.P.instrPos(in)
		unsettled(s, in)
		acc := s.cl["acc"]
		if acc == nil {
			if b := out.args[0]; !(b.op == ONil || s.eqInt(T.Len(b), T.Zero)) {
				bad(s, "next", "start", in, "the result does not start empty: "+short(b))
			}
		} else if out.args[0] != acc {
			bad(s, "next", "base", in, "what is added to is not the result so far: "+short(out.args[0]))
		}
		s.cl["acc"] = out
		r.Oblige("next", where)
		if out.op == OAppendS {
			// the rest of a log
			x := out.args[1]
			for side, log := range []*Term{mr.a, mr.b} {
				nm := []string{"ca", "cb"}[side]
				if x == log && isCount(s, nm, T.Zero) || x.op == OSlice && x.args[0] == log && isCount(s, nm, x.args[1]) && (x.args[2].op == ONone || s.eqInt(x.args[2], T.Len(log))) {
					bad(s, "conflict", "bulk", in, "entries go into the result without being checked against earlier deletions")
					s.cl[nm] = T.Tuple(T.Len(log))
					return
				}
			}
			bad(s, "next", "bulk", in, "what is added is not the rest of a log: "+short(x))
			return
		}
		if len(out.args) != 2 {
			bad(s, "next", "many", in, "several entries are added at once")
			return
		}
		x := out.args[1]
		for side := 0; side < 2; side++ {
			log, other, nm, nmo := mr.a, mr.b, "ca", "cb"
			if side == 1 {
				log, other, nm, nmo = mr.b, mr.a, "cb", "ca"
			}
			i := txIndex(x, log)
			if i == nil {
				continue
			}
			if !isCount(s, nm, i) {
				bad(s, "next", "order", in, "entry "+short(i)+" is added but the number of entries of that log used so far is "+short(s.cl[nm]))
				return
			}
			shared, before := false, false
			for _, y := range heads(s, nmo, other) {
				shared = shared || mr.knownEqual(s, x, y)
				before = before || s.ProveLE(txf(s, x, "Time"), txf(s, y, "Time"))
			}
			flag := T.False
			if shared {
				flag = T.True
				tick(s, nm)
				tick(s, nmo)
			} else {
				if !usedUp(s, nmo, other) {
					r.Oblige("order", where)
					if !before {
						bad(s, "order", "time", in, "an entry is added before an earlier entry of the other log")
					}
				}
				if rootNeeded(s) {
					r.Oblige("root", where)
					if s.cl["root"] == nil && s.cl["forced"] == nil {
						bad(s, "root", "missing", in, "logs that do not start with the same entry are merged without a conflict")
					}
				}
				tick(s, nm)
			}
			s.cl["pend"] = T.Tuple(x, flag)
			delete(s.cl, "just")
			// how the heads compare has served its purpose
			for f := range s.facts {
				if (contents(f, 0) && !onlyOf(f, x)) || f.op == OBin && f.tok == tokEQL && !contents(f, 0) && f.args[0].op != OLen && f.args[1].op != OLen {
					delete(s.facts, f)
				}
			}
			return
		}
		bad(s, "next", "source", in, "what is added is not an entry of either log: "+short(x))
	}
	c.OnSlice = func(s *State, x, out *Term, in ssa.Instruction) {
		if x != s.cl["acc"] || x == nil {
			return
		}
		if out.op == OSlice && out.args[2].op == ONone && s.eqInt(out.args[1], T.Zero) {
			s.cl["acc"] = out
			return
		}
		if s.eqInt(T.Len(out), T.Len(x)) && out.op == OSlice && s.eqInt(out.args[1], T.Zero) {
			s.cl["acc"] = out
			return
		}
		r.Oblige("removal", r.P.instrPos(in))
		s.cl["acc"] = out
		if x.op != OAppend || len(x.args) != 2 || !s.eqInt(T.Len(out), T.Len(x.args[0])) || out.op == OSlice && !s.eqInt(out.args[1], T.Zero) {
			bad(s, "removal", "what", in, "something else than the entry just added is taken out of the result: "+short(out))
			return
		}
		if s.cl["just"] == nil && !justified(s, x.args[1]) {
			bad(s, "removal", "why", in, "an entry is taken out of the result without a resolution that says so")
		}
		delete(s.cl, "pend")
		delete(s.cl, "just")
	}
	saved := map[string][]*Term{}
	positive := map[*Term]bool{}
	widened := map[int]bool{}
	fresh := map[string][]*Term{}
	size := func(v *Term) *Term {
		if isIntType(v.typ) {
			return v
		}
		if isSliceOrString(v.typ) {
			return T.Len(v)
		}
		return nil
	}
	c.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		settle(s)
		mr.acc, mr.conf = s.cl["acc"], s.cl["conflicts"]
		positive, widened, fresh = map[*Term]bool{}, map[int]bool{}, map[string][]*Term{}
		saved = map[string][]*Term{}
		if s.cl["ticked"] != nil && s.cl["pend"] == nil {
			delete(s.cl, "ticked")
			for _, g := range []string{"ca", "cb"} {
				saved[g] = members(s, g)
				delete(s.cl, g)
			}
		}
		mark := func(v *Term) {
			if v == nil || v == T.None || v.typ == nil {
				return
			}
			if z := size(v); z != nil && s.ProveLE(T.Int(1), z) {
				positive[v] = true
			}
		}
		for i, p := range h.Preds {
			if p == s.top().blk {
				for _, in := range h.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					mark(s.val(ph.Edges[i]))
				}
			}
		}
		for a, v := range s.mem {
			if a.op == OAllocAddr {
				mark(v)
			}
		}
	}
	// between two entries only the counts matter
	c.OnHeader = func(s *State, h *ssa.BasicBlock) {
		for _, g := range []string{"ca", "cb"} {
			if s.cl[g] != nil {
				continue
			}
			set := fresh[g]
		next:
			for _, x := range saved[g] {
				if T.linOf(x).c > 1 {
					continue // would count forever
				}
				for _, l := range x.leafs {
					if widened[l] {
						continue next
					}
				}
				set = append(set, x)
			}
			if s.cl["ticked:"+g] != nil && len(fresh[g]) == 0 {
			next1:
				for _, x := range fresh["alt:"+g] {
					own := 0
					for _, l := range x.leafs {
						if widened[l] {
							own++
						}
					}
					if own > 1 {
						continue next1 // depends on an older value of another variable
					}
					set = append(set, x)
				}
			}
			delete(s.cl, "ticked:"+g)
			var uniq []*Term
		dup:
			for _, x := range set {
				for _, y := range uniq {
					if T.LinEq(x, y) {
						continue dup
					}
				}
				uniq = append(uniq, x)
			}
			set = uniq
			sort.Slice(set, func(i, j int) bool { return set[i].id < set[j].id })
			s.cl[g] = T.Tuple(set...)
		}
		settle(s)
		if s.cl["pend"] != nil {
			return
		}
		delete(s.cl, "just")
		if usedUp(s, "ca", mr.a) {
			s.cl["done:ca"] = T.True
		}
		if usedUp(s, "cb", mr.b) {
			s.cl["done:cb"] = T.True
		}
		for f, v := range s.facts {
			empty := v && f.op == OBin && f.tok == tokEQL && (f.args[0].op == OLen || f.args[1].op == OLen)
			if contents(f, 0) || len(f.leafs) == 0 && !empty {
				delete(s.facts, f)
			}
		}
	}
	c.OnWiden = func(s *State, leaf *Term, h *ssa.BasicBlock, vals ...*Term) {
		widened[leaf.id] = true
		if v := vals[len(vals)-1]; v != nil {
			for _, g := range []string{"ca", "cb"} {
				for _, x := range saved[g] {
					if !isIntType(v.typ) {
						continue
					}
					// x == (x-v) + leaf
					d := T.linOf(x).clone()
					d.add(T.linOf(v), -1)
					d.add(T.linOf(leaf), 1)
					if y := T.linTerm(d); d.c >= -1 && d.c <= 1 && T.LinEq(y, leaf) {
						fresh[g] = append(fresh[g], leaf)
					} else if ph, ok := leaf.leaf.at.(*ssa.Phi); ok && ph.Comment == "rangeindex" && d.c >= -1 && d.c <= 1 {
						fresh["alt:"+g] = append(fresh["alt:"+g], y)
					}
				}
			}
			if z := size(leaf); z != nil && positive[v] {
				s.Assume(T.Bin(token.LSS, z, T.Int(1), types.Typ[types.Bool]), false)
			}
		}
		for _, v := range vals {
			if v != nil && v == mr.acc {
				s.cl["acc"] = leaf
			}
			if v != nil && v == mr.conf {
				s.cl["conflicts"] = leaf
			}
		}
	}
	c.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		where := r.P.instrPos(in)
		acc := s.cl["acc"]
		if s.IsNil(res[0]) && !(acc == nil && s.eqInt(T.Len(mr.a), T.Zero) && s.eqInt(T.Len(mr.b), T.Zero)) {
			if res[1] == mr.resolved {
				r.Oblige("unresolved", where)
				return
			}
			r.Oblige("complete", "conflicts at "+where)
			if cf := s.cl["conflicts"]; res[1] != cf || !s.NonNil(res[1]) && !s.ProveLE(T.Int(1), T.Len(res[1])) {
				bad(s, "complete", "neither", in, "neither a merged log nor conflicts are returned")
			}
			return
		}
		if res[0] == mr.a || res[0] == mr.b {
			r.Oblige("identical", where)
			la, lb := T.Len(mr.a), T.Len(mr.b)
			tm := func(l, i *Term) *Term { return txf(s, at(s, l, i), "Time") }
			last := func(l *Term) *Term { return T.addConst(T.Len(l), -1, intT) }
			// both logs have the same length here: either names the last entry
			ends := false
			for _, i := range []*Term{last(mr.a), last(mr.b)} {
				for _, j := range []*Term{last(mr.a), last(mr.b)} {
					ends = ends || s.eqInt(tm(mr.a, i), tm(mr.b, j))
				}
			}
			if !s.eqInt(la, lb) || !(s.eqInt(la, T.Zero) || s.eqInt(tm(mr.a, T.Zero), tm(mr.b, T.Zero)) && ends) {
				if !(s.eqInt(T.Len(mr.b), T.Zero) && res[0] == mr.a || s.eqInt(T.Len(mr.a), T.Zero) && res[0] == mr.b) {
					bad(s, "identical", "loss", in, "one of the logs is returned although the other may have other entries")
				}
			}
			if !s.IsNil(res[1]) {
				bad(s, "identical", "conflicts", in, "a log is returned together with conflicts")
			}
			return
		}
		unsettled(s, in)
		r.Oblige("complete", "log at "+where)
		if !usedUp(s, "ca", mr.a) || !usedUp(s, "cb", mr.b) {
			bad(s, "complete", "rest", in, "a merged log is returned before both logs are used up")
		}
		if acc != nil && res[0] != acc {
			bad(s, "complete", "result", in, "what is returned is not the merged log: "+short(res[0]))
		}
		if cf := s.cl["conflicts"]; cf != nil && !s.eqInt(T.Len(cf), T.Zero) {
			bad(s, "complete", "conflicts", in, "a merged log is returned although there are conflicts")
		}
		if s.cl["root"] != nil {
			bad(s, "complete", "rootconflict", in, "a merged log is returned although the logs have no common start")
		}
	}
	m.Run(fn, func(s *State, p []*Term) {
		mr.a, mr.b, mr.resolved = p[0], p[1], p[2]
		s.cl["ca"], s.cl["cb"] = T.Tuple(T.Zero), T.Tuple(T.Zero)
	})
	r.absorb(m, "Merge")
}

// sameTx: two transactions are the same value.
func (mr *mergeRun) sameTx(s *State, x, y *Term) bool {
	if x == y {
		return true
	}
	for _, f := range []string{"Time", "Kind", "UUID", "Key", "Value"} {
		a, b := s.fieldOf(x, mr.txT, f), s.fieldOf(y, mr.txT, f)
		if a != b {
			if _, is := a.typ.Underlying().(*types.Basic); is && s.eqLoads(a, b) {
				continue
			}
			return false
		}
	}
	return true
}

// knownEqual: the path has compared all fields and found them equal.
func (mr *mergeRun) knownEqual(s *State, x, y *Term) bool {
	T := s.sim.T
	if s.Known(T.Eq(x, y), true) {
		return true
	}
	for _, f := range []string{"Time", "Kind", "UUID", "Key", "Value"} {
		a, b := s.fieldOf(x, mr.txT, f), s.fieldOf(y, mr.txT, f)
		if !s.Known(T.Eq(a, b), true) {
			return false
		}
	}
	return true
}

// eqLoads: loads of the same field at indices that are equal.
func (s *State) eqLoads(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) || a.obj != b.obj || a.idx != b.idx || a.name != b.name {
		return false
	}
	switch a.op {
	case OLoad, OFieldAddr, OIndexAddr, OField, OIndex:
	default:
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x == y || s.eqLoads(x, y) {
			continue
		}
		if isIntType(x.typ) && isIntType(y.typ) && s.eqInt(x, y) {
			continue
		}
		return false
	}
	return true
}

// conflictList: x is a field of a conflict; returns the list it is in.
func (s *State) conflictList(x *Term, conT types.Type) *Term {
	for d := 0; x != nil && d < 14; d++ {
		switch x.op {
		case OIndexAddr, OIndex:
			if sl, ok := x.args[0].typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), conT) {
				return x.args[0]
			}
		case OLoad, OField, OFieldAddr, OSlice:
		default:
			return nil
		}
		x = x.args[0]
	}
	return nil
}

func within(x, y *Term, d int) bool {
	if x == y {
		return true
	}
	if d > 12 {
		return false
	}
	for _, z := range x.args {
		if within(z, y, d+1) {
			return true
		}
	}
	return false
}

// contents: x depends on what is stored somewhere.
func contents(x *Term, d int) bool {
	switch x.op {
	case OLoad, OField, OIndex, OIndexAddr, OLookup, OLookupOk, OCall, OPure:
		return true
	}
	if d > 12 {
		return true
	}
	for _, y := range x.args {
		if contents(y, d+1) {
			return true
		}
	}
	return false
}

// onlyOf: every stored value x depends on is part of the transaction tx.
func onlyOf(x, tx *Term) bool {
	for _, a := range tx.args {
		if x == a {
			return true
		}
	}
	switch x.op {
	case OLoad, OField, OIndex, OIndexAddr, OLookup, OLookupOk, OCall, OPure:
		return false
	}
	for _, y := range x.args {
		if !onlyOf(y, tx) {
			return false
		}
	}
	return true
}
