package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10", Title: "remotes are only overwritten with what includes them", Run: runC10,
		Explanation: "The synchronization is executed abstractly: every round of its pull loop, and every push with what is known about the pull of the same entry, is inspected; so are the functions that tell a missing remote file from other failures."})
}

func runC10(r *Run) {
	r.Rule("round: a remote stays on the list to push to only if what was pulled from it was decrypted and is merged, equals another one that is, or it has no file yet")
	r.Rule("push: a push goes to an entry left on that list, after the merge succeeded, and sends what was saved after it")
	r.Rule("merged: every remote handed to the merge is merged into the outcome of the merges before it, unless its log is empty, and the result is the outcome of the last merge")
	r.Rule("missing: a remote counts as having no file only if reading it failed with a file-not-found error")
	r.Rule("pulled: pulling reports success only if reading the remote succeeded, with all that was read")
	p := r.P
	pulls, pushes := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" || f.Parent() != nil {
			continue
		}
		rd := p.reachesAny(f, "os.ReadFile", "io/ioutil.ReadFile", "os.Open")
		rcv, snd := p.reachesAny(f, "scpsync.Recv"), p.reachesAny(f, "scpsync.Send")
		wr := p.reachesAny(f, "os.Rename", "os.WriteFile", "io/ioutil.WriteFile")
		mg := p.reachesAny(f, "txlogs.Merge", "crypt.Decrypt")
		if rcv && rd && !snd && !mg {
			pulls[f] = true
		}
		if snd && wr && !rcv && !mg {
			pushes[f] = true
		}
	}
	minimal := func(m map[*ssa.Function]bool) {
		for f := range m {
			for g := range p.reach(f) {
				if g != f && m[g] {
					delete(m, f)
				}
			}
		}
	}
	minimal(pulls)
	minimal(pushes)
	if len(pulls) == 0 || len(pushes) == 0 {
		r.Violate("anchor", "pull", "-", "no functions that pull from and push to files and remotes were found", nil)
		return
	}
	n := 0
	for _, f := range p.mainCallees() {
		if p.reachesAny(f, "scpsync.Recv") && p.reachesAny(f, "scpsync.Send") && directMerge(p, f) {
			n++
			syncRounds(r, f, pulls, pushes)
		}
	}
	if n == 0 {
		r.Violate("anchor", "sync", "-", "main does not synchronize through a function of its own", nil)
	}
	for _, f := range p.modFuncs() {
		if pulls[f] {
			pulled(r, f)
		}
	}
	mergedAll(r)
	if f := r.Anchor("scpsync.IsNotFoundErr"); f != nil {
		notFoundErr(r, f)
	}
	r.Need("round", 1)
	r.Need("push", 1)
	r.Need("missing", 2)
	r.Need("pulled", 1)
}

// mergedAll: what is handed to the merge is merged, every remote of it.
func mergedAll(r *Run) {
	a, deciders := newAdoptModel(r)
	if a == nil {
		return
	}
	a.rule = "merged"
	a.keep = map[string]bool{"not-merged": true, "merge-error": true, "log": true, "remote": true, "result-log": true}
	for _, f := range deciders {
		a.resT = f.Signature.Results().At(a.credResult(f)).Type()
		a.decide(f)
	}
	r.Need("merged", 2)
}

func syncRounds(r *Run, root *ssa.Function, pulls, pushes map[*ssa.Function]bool) {
	p := r.P
	reachesSet := func(f *ssa.Function, set map[*ssa.Function]bool) bool {
		for g := range p.reach(f) {
			if set[g] {
				return true
			}
		}
		return false
	}
	partsT := p.typ("main.blobParts")
	cl := &Client{Name: "rounds"}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if pkgOf(f) != "main" || pulls[f] || pushes[f] {
			return false, true
		}
		return reachesSet(f, pulls) || reachesSet(f, pushes) || callsDirect(f, "crypt.Encrypt") && !p.reachesAny(f, "os.Rename"), true
	}
	m := newSim(p, cl)
	T := m.T
	type cand struct {
		key, pos, msg string
		trail         []string
	}
	var badAppends []cand
	type round struct {
		cand
		cleared, marked bool
	}
	type pushing struct {
		cand
		slot, neg, only bool
	}
	var badRounds []round
	var samePushes []pushing
	appends, otherPush := 0, 0
	// the place an element of a list of strings was loaded from
	placeOf := func(s *State, x *Term) *Term {
		if x == nil {
			return nil
		}
		if a := s.cl["at:"+strconv.Itoa(x.id)]; a != nil {
			return a
		}
		return nil
	}
	cl.OnLoad = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr && val.op != OConst && isStringType(val.typ) {
			s.cl["at:"+strconv.Itoa(val.id)] = addr
		}
	}
	sig := func(f *ssa.Function) int { return errResult(f.Signature) }
	merges := func(f *ssa.Function) bool {
		return f != nil && p.inModule[f] && pkgOf(f) == "main" && directMerge(p, f)
	}
	integrated := func(s *State) string {
		pl := s.cl["pull"]
		if pl == nil {
			return "nothing was pulled"
		}
		perr := s.cl["pull-err"]
		if notFound(s, perr) {
			return ""
		}
		if s.cl["part"] != nil {
			return ""
		}
		for f, v := range s.facts {
			if v && f.op == OBin && f.tok == tokEQL && f.any(func(y *Term) bool {
				return (y.op == OPure || y.op == OCall) && strings.HasPrefix(y.name, "crypto/sha") && y.contains(pl)
			}) {
				return ""
			}
		}
		return "what was pulled may be neither merged nor missing"
	}
	hasPull := func(h *ssa.BasicBlock) bool {
		for b := range loopBody(h) {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && p.inModule[f] && reachesSet(f, pulls) {
						return true
					}
				}
			}
		}
		return false
	}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		if hasPull(h) {
			for _, k := range []string{"pull", "pull-err", "pull-id", "part", "cleared", "listed", "idx", "mark"} {
				delete(s.cl, k)
			}
			for k := range s.cl {
				if strings.HasPrefix(k, "at:") {
					delete(s.cl, k)
				}
			}
		}
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		if !hasPull(h) || s.cl["pull"] == nil {
			return
		}
		r.Oblige("round", "round of "+fnName(h.Parent()))
		if w := integrated(s); w != "" {
			badRounds = append(badRounds, round{cand{"round", p.instrPos(h.Instrs[0]), "a remote can stay on the list to push to although " + w, s.Trail(14)},
				s.cl["cleared"] != nil, s.cl["mark"] != nil})
		}
	}
	cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr && isStr(val, "") && s.cl["list"] != nil && addr.args[0] == s.cl["list"] {
			if i := s.cl["idx"]; i == nil || i == addr.args[1] {
				s.cl["cleared"] = T.True
			}
		}
	}
	// a set of the remotes that do (not) take part
	setOf := func(mp *Term) bool {
		if mp == nil || mp.typ == nil {
			return false
		}
		t, ok := mp.typ.Underlying().(*types.Map)
		if !ok || !isStringType(t.Key()) {
			return false
		}
		switch v := t.Elem().Underlying().(type) {
		case *types.Basic:
			return v.Kind() == types.Bool
		case *types.Struct:
			return v.NumFields() == 0
		}
		return false
	}
	cl.OnLookup = func(s *State, mp, k *Term, in ssa.Instruction) {
		// nothing was marked so far: that nothing is found goes without saying
		if setOf(mp) && mp.op == OMake && s.epochOf("map:"+typeKey(mp.typ.Underlying())).op == ONone {
			s.cl["empty:"+strconv.Itoa(k.id)] = T.True
		}
	}
	cl.OnMapUpdate = func(s *State, mp, k, v *Term, in ssa.Instruction) {
		if setOf(mp) && sameElem(k, s.cl["pull-id"]) {
			if v == T.None || v == T.False {
				delete(s.cl, "mark")
			} else {
				s.cl["mark"] = mp
			}
		}
	}
	cl.OnAppend = func(s *State, out *Term, in ssa.Instruction) {
		sl, ok := out.typ.Underlying().(*types.Slice)
		if !ok || len(out.args) < 2 {
			return
		}
		if partsT != nil && types.Identical(sl.Elem(), partsT) {
			s.cl["part"] = T.True
			return
		}
		for _, x := range out.args[1:] {
			if sameElem(x, s.cl["pull-id"]) {
				appends++
				r.Oblige("round", "listed "+p.instrPos(in))
				s.cl["listed"] = T.True
				// judged when the round ends
			}
		}
	}
	prevBack := cl.OnBackEdge
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		prevBack(s, h)
		if hasPull(h) && s.cl["listed"] != nil {
			if w := integrated(s); w != "" {
				badAppends = append(badAppends, cand{"round", p.instrPos(h.Instrs[0]), "a remote is put on the list to push to although " + w, s.Trail(14)})
			}
		}
	}
	cl.OnCall = func(ev *CallEv) {
		s := ev.S
		if ev.Fn == nil || !pushes[ev.Fn] {
			return
		}
		r.Oblige("push", p.instrPos(ev.Instr))
		if e := s.cl["merge-err"]; e == nil || !s.IsNil(e) {
			r.Violate("push", "unmerged", p.instrPos(ev.Instr), "something is pushed although merging may have failed or not happened", s.Trail(12))
		}
		okData := false
		var id *Term
		for _, a := range ev.Args {
			if a.typ == nil {
				continue
			}
			if k, i := resOf(a, "crypt.Encrypt"); k != nil && i == 0 && k.any(func(y *Term) bool { return y == s.cl["saved"] && y != nil }) {
				okData = true
			}
			if isStringType(a.typ) {
				id = a
			}
		}
		if !okData {
			r.Violate("push", "data", p.instrPos(ev.Instr), "what is pushed is not what was saved after merging", s.Trail(12))
		}
		if id == nil {
			return
		}
		at := placeOf(s, id)
		same := at != nil && at.args[0] == s.cl["list"]
		if same {
			pu := pushing{cand: cand{"cleared", p.instrPos(ev.Instr), "something can be pushed to an entry that was taken off the list", s.Trail(12)}}
			pu.slot = s.Known(T.Eq(id, T.Str("")), false) || s.Known(T.Eq(T.Len(id), T.Zero), false) || s.ProveLE(T.One, T.Len(id))
			pu.neg = s.cl["empty:"+strconv.Itoa(id.id)] != nil
			for f, v := range s.facts {
				if (f.op == OLookup || f.op == OLookupOk) && len(f.args) > 1 && f.args[1] == id && setOf(f.args[0]) {
					if v {
						pu.only = true
					} else {
						pu.neg = true
					}
				}
			}
			samePushes = append(samePushes, pu)
		} else {
			otherPush++
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		switch {
		case ev.Fn != nil && pulls[ev.Fn]:
			res = behind(res)
			s.cl["pull"] = res
			if k := sig(ev.Fn); k >= 0 {
				s.cl["pull-err"] = errOf(T, res, k)
			}
			for _, a := range ev.Args {
				if a.typ != nil && isStringType(a.typ) {
					s.cl["pull-id"] = a
					if at := placeOf(s, a); at != nil {
						s.cl["list"], s.cl["idx"] = at.args[0], at.args[1]
					}
				}
			}
		case merges(ev.Fn):
			if k := sig(ev.Fn); k >= 0 {
				s.cl["merge-err"] = errOf(T, behind(res), k)
			}
			delete(s.cl, "saved")
		case strings.HasSuffix(ev.Name, ").Save") && s.cl["merge-err"] != nil:
			s.cl["saved"] = behind(res)
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
	report := func(cs []cand) {
		for i, c := range cs {
			if i < 3 {
				r.Violate("round", c.key, c.pos, c.msg, c.trail)
			}
		}
	}
	var bad []cand
	for _, rd := range badRounds {
		for _, pu := range samePushes {
			if !(pu.slot && rd.cleared) && !(pu.neg && rd.marked) && !(pu.only && !rd.marked) {
				if rd.cleared || rd.marked {
					bad = append(bad, cand{"cleared", pu.cand.pos, pu.msg, pu.trail})
				} else {
					bad = append(bad, rd.cand)
				}
				break
			}
		}
	}
	report(bad)
	if otherPush > 0 {
		if appends == 0 {
			r.Violate("push", "list", p.pos(root.Pos()), "what is pushed to is not a list of the remotes that were pulled from", nil)
		}
		report(badAppends)
	}
}

// sameElem: the same value, or read from the same place.
func sameElem(a, b *Term) bool {
	return a != nil && b != nil && (a == b || a.op == OLoad && b.op == OLoad && a.args[0] == b.args[0])
}

// notFound: the error is known to say that there is no such file.
func notFound(s *State, err *Term) bool {
	if err == nil {
		return false
	}
	for f, v := range s.facts {
		if !v {
			continue
		}
		if f.op == OBin && f.tok == tokEQL {
			for k := 0; k < 2; k++ {
				if f.args[k] == err && f.args[1-k].op == OSentinel {
					return true
				}
			}
		}
		if (f.op == OPure || f.op == OCall) && (f.name == "errors.Is" || f.name == "os.IsNotExist" || f.name == "scpsync.IsNotFoundErr") && f.args[0] == err {
			return true
		}
	}
	return false
}

// pulled: the function that reads a remote says truthfully what it found.
func pulled(r *Run, root *ssa.Function) {
	p := r.P
	cl := &Client{Name: "pull", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		return pkgOf(f) == "main" && (p.reachesAny(f, "os.ReadFile", "io/ioutil.ReadFile", "scpsync.IsNotFoundErr", "os.IsNotExist", "scpsync.Recv")), true
	}
	m := newSim(p, cl)
	T := m.T
	cl.OnCall = func(ev *CallEv) {
		// no error is no file-not-found error
		if (ev.Name == "scpsync.IsNotFoundErr" || ev.Name == "os.IsNotExist" || ev.Name == "errors.Is") && ev.S.IsNil(ev.Args[0]) {
			ev.Result = T.False
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		switch ev.Name {
		case "os.ReadFile", "io/ioutil.ReadFile", "scpsync.Recv":
			ev.S.cl["read"] = behind(res)
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if len(res) < 2 {
			return
		}
		e := res[len(res)-1]
		rd := s.cl["read"]
		var rerr *Term
		if rd != nil {
			rerr = errOf(T, rd, 1)
		}
		if e.op == OSentinel {
			r.Oblige("missing", p.instrPos(in))
			ok := false
			for f, v := range s.facts {
				if v && (f.op == OPure || f.op == OCall) && (f.name == "os.IsNotExist" || f.name == "scpsync.IsNotFoundErr" || f.name == "errors.Is") && (rd == nil || f.args[0] == rerr) {
					if f.name != "errors.Is" || strings.Contains(f.args[1].String(), "ErrNotExist") {
						ok = true
					}
				}
			}
			if !ok {
				r.Violate("missing", fnName(root), p.instrPos(in), "a remote can be taken to have no file although reading it did not fail with file-not-found", s.Trail(12))
			}
			return
		}
		if s.NonNil(e) {
			return
		}
		r.Oblige("pulled", p.instrPos(in))
		if rd == nil {
			return // nothing read: what cannot be decrypted is not merged
		}
		if e != rerr && !s.IsNil(rerr) {
			r.Violate("pulled", fnName(root), p.instrPos(in), "success can be reported although reading the remote failed", s.Trail(12))
		}
		for _, x := range res {
			if x.typ == nil {
				continue
			}
			if sl, ok := x.typ.Underlying().(*types.Slice); ok && sl != nil {
				if !(x.op == OExtract && x.args[0] == rd && x.idx == 0) {
					r.Violate("pulled", fnName(root)+"|data", p.instrPos(in), "what is returned is not all that was read from the remote", s.Trail(12))
				}
			}
		}
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}

// notFoundErr: the remote's own message decides.
func notFoundErr(r *Run, root *ssa.Function) {
	p := r.P
	cl := &Client{Name: "notfound", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	m := newSim(p, cl)
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if s.Known(res[0], false) {
			return
		}
		r.Oblige("missing", p.instrPos(in))
		says := func(x *Term) bool {
			return x.any(func(y *Term) bool { return isStr(y, "no such file or directory") || isStr(y, "no such file") })
		}
		if (res[0].op == OPure || res[0].op == OCall) && res[0].name == "strings.Contains" && says(res[0]) {
			return
		}
		for f, v := range s.facts {
			if v && says(f) {
				return
			}
		}
		r.Violate("missing", fnName(root), p.instrPos(in), "an error counts as file-not-found that does not say so", s.Trail(12))
	}
	m.Run(root, nil)
	r.absorb(m, fnName(root))
}
