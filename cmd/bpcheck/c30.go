package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C30", Title: "who can open a file changes only by managing users", Run: runC30,
		Explanation: "Every function of the store that gives an entry a name is executed abstractly up to where the name is written: it must be known there that the name is no user's, or that the entry is a user before and after, or it is the function users are made with. Whoever makes a user must give it credentials, and the functions of the program that rename and delete entries are followed to see what becomes of the session's own user."})
}

const userPre = "user/"

func runC30(r *Run) {
	r.Rule("name: an entry is given a name only if the name is known to be no user's, or the entry is a user's before and after, or a user is being made; a user's name is never empty")
	r.Rule("made: whoever makes a user gives it a salt, an iv and a wrapped key before reporting success")
	r.Rule("session: if the entry renamed is the session's user, the session is the renamed user's from then on")
	r.Rule("delete: the session's own user is deleted only if there is no other, and then the master key is dropped with it")
	p := r.P
	makers := map[*ssa.Function]bool{}
	n := 0
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "blobformat" || f.Object() == nil || !f.Object().Exported() || !p.reachesAny(f, "(*txlogs.DB).Set") {
			continue
		}
		if names(r, f, makers) {
			n++
		}
	}
	if n == 0 {
		r.Violate("anchor", "names", "-", "no function of the store gives an entry a name", nil)
	}
	r.Need("name", 3)
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" || f.Parent() != nil {
			continue
		}
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if fn := c.Common().StaticCallee(); fn != nil && fnName(fn) == "(*txlogs.DB).Set" && len(c.Common().Args) == 4 {
						if k, ok := c.Common().Args[2].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "name" {
							r.Oblige("name", "main "+p.instrPos(in))
							r.Violate("name", "main|"+fnName(f), p.instrPos(in), "an entry is given a name without the store looking at it", nil)
						}
					}
				}
			}
		}
		calls := map[string]bool{}
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						fn := c.Common().StaticCallee()
						if makers[fn] {
							calls["make"] = true
						}
						calls[strings.TrimSuffix(fnName(fn), "$bound")] = true
					}
				}
			}
		}
		if calls["make"] {
			made(r, f, makers)
		}
		if calls["(blobformat.Blobs).Rename"] {
			ownUser(r, f, "session")
		}
		if calls["(*txlogs.DB).Delete"] || calls["(txlogs.DB).Delete"] {
			ownUser(r, f, "delete")
		}
	}
	r.Need("made", 1)
	r.Need("session", 1)
	r.Need("delete", 1)
}

// isUserTest: t asks whether x is a user's name.
func isUserTest(t *Term) *Term {
	if t.op == OPure || t.op == OCall {
		if t.name == "strings.HasPrefix" && len(t.args) == 2 && isStr(t.args[1], userPre) {
			return t.args[0]
		}
		if t.name == "blobformat.IsUserEntry" && len(t.args) == 1 {
			return t.args[0]
		}
	}
	return nil
}

// names: the names f gives to entries.
func names(r *Run, f *ssa.Function, makers map[*ssa.Function]bool) bool {
	p := r.P
	found := false
	cl := &Client{Name: fnName(f), KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(g *ssa.Function) (bool, bool) {
		// setting a key given never sets a name
		return pkgOf(g) == "blobformat" && p.inModule[g] && fnName(g) != "(blobformat.Blobs).Set" && fnName(g) != "(blobformat.Blobs).DeleteKey", true
	}
	cl.OnCall = func(ev *CallEv) {
		if ev.Name != "(*txlogs.DB).Set" || len(ev.Args) != 4 {
			return
		}
		s := ev.S
		T := s.sim.T
		k, v := ev.Args[2], ev.Args[3]
		if str, ok := k.strVal(); ok && str != "name" {
			return
		} else if !ok {
			// other rules see to it that a key given is not a protected one
			return
		}
		found = true
		where := p.instrPos(ev.Instr)
		r.Oblige("name", fnName(f)+" "+where)
		// literally "user/" and something
		if pre, rest := prefixed(v); pre != "" && strings.HasPrefix(pre, userPre) {
			makers[f] = true
			if rest != nil && pre == userPre && !s.Known(T.Eq(T.Len(rest), T.Zero), false) && !s.ProveLE(T.One, T.Len(rest)) && !s.Known(T.Eq(rest, T.Str("")), false) {
				r.Violate("name", "empty|"+fnName(f), where, "a user without a name can be made, a file with it cannot be saved", s.Trail(10))
			}
			return
		} else if pre != "" && !strings.HasPrefix(userPre, pre) {
			return // something else before it
		}
		// what is known about the new name and the one before
		newUser, newOther, oldUser, oldOther, same := false, false, false, false, false
		for t, b := range s.facts {
			if x := isUserTest(t); x == v {
				newUser, newOther = newUser || b, newOther || !b
			} else if x != nil && ofEntry(x, ev.Args[1]) {
				oldUser, oldOther = oldUser || b, oldOther || !b
			}
			if t.op == OBin && t.tok == tokEQL && b {
				x, y := isUserTest(t.args[0]), isUserTest(t.args[1])
				if x != nil && y != nil && (x == v && ofEntry(y, ev.Args[1]) || y == v && ofEntry(x, ev.Args[1])) {
					same = true
				}
			}
		}
		if k := callOf(ev.Args[1]); k.op == OCall && k.name == "(*txlogs.DB).Add" {
			oldOther = true
		}
		if newOther && (oldOther || same) {
			return
		}
		if !(newUser && oldUser) && !same {
			r.Violate("name", fnName(f), where, "an entry can be given the name of a user (or a user another name) although no user is being made: the file cannot be opened by it, or not be saved", s.Trail(10))
			return
		}
		if !s.Known(T.Eq(v, T.Str(userPre)), false) && !nonEmptyRest(s, v) {
			r.Violate("name", "empty|"+fnName(f), where, "a user can lose its name, a file with it cannot be saved", s.Trail(10))
		}
	}
	m := newSim(p, cl)
	m.Run(f, nil)
	r.absorb(m, fnName(f))
	return found
}

// nonEmptyRest: what comes after "user/" in v is not empty.
func nonEmptyRest(s *State, v *Term) bool {
	T := s.sim.T
	if s.ProveLE(T.Int(int64(len(userPre)+1)), T.Len(v)) {
		return true
	}
	for t, b := range s.facts {
		if b || t.op != OBin || t.tok != tokEQL {
			continue
		}
		for k := 0; k < 2; k++ {
			a, o := t.args[k], t.args[1-k]
			if a.op == OLen && o == T.Zero {
				a = a.args[0]
			} else if !isStr(o, "") {
				continue
			}
			if mentionsTerm(a, v) && (mentions(a, "blobformat.SplitUsername") || mentions(a, "strings.TrimPrefix") || a.op == OSlice) {
				return true
			}
		}
	}
	return false
}

// prefixed: v is a constant string followed by something.
func prefixed(v *Term) (string, *Term) {
	if str, ok := v.strVal(); ok {
		return str, nil
	}
	if v.op == OConcat && len(v.args) == 2 {
		if str, ok := v.args[0].strVal(); ok {
			return str, v.args[1]
		}
		return prefixed(v.args[0])
	}
	return "", nil
}

// ofEntry: y is the name of the entry uuid.
func ofEntry(y, uuid *Term) bool {
	return mentionsTerm(y, uuid) && y.any(func(x *Term) bool { return isStr(x, "name") || x.name == "(blobformat.Blob).Name" })
}

// made: a user made in f gets its credentials.
func made(r *Run, f *ssa.Function, makers map[*ssa.Function]bool) {
	p := r.P
	cl := &Client{Name: fnName(f), KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(g *ssa.Function) (bool, bool) {
		return pkgOf(g) == "main" && p.inModule[g] && !makers[g] && p.reachesAny(g, "(*txlogs.DB).Set") && !p.reachesAny(g, "crypt.Decrypt") || g.Parent() != nil, true
	}
	cl.OnCall = func(ev *CallEv) {
		if ev.Name != "(*txlogs.DB).Set" || len(ev.Args) != 4 {
			return
		}
		if k, ok := ev.Args[2].strVal(); ok && (k == "salt" || k == "iv" || k == "mkey") {
			ev.S.cl["set:"+k+":"+tid(ev.Args[1])] = ev.S.sim.T.True
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		if ev.Fn != nil && makers[ev.Fn] {
			ev.S.cl["user"] = res
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		k := s.cl["user"]
		if k == nil || !succeeds(s, res) {
			return
		}
		if s.NonNil(errOf(T, k, 1)) {
			return
		}
		uuid := T.Extract(k, 0, types.Typ[types.String])
		r.Oblige("made", fnName(f)+" "+p.instrPos(in))
		for _, key := range []string{"salt", "iv", "mkey"} {
			if s.cl["set:"+key+":"+tid(uuid)] == nil {
				r.Violate("made", key+"|"+fnName(f), p.instrPos(in), "a user can be made without its "+key+", the file cannot be saved with it", s.Trail(12))
			}
		}
	}
	m := newSim(p, cl)
	m.Run(f, nil)
	r.absorb(m, fnName(f))
}

// ownUser: what becomes of the session's user where entries are renamed or
// deleted.
func ownUser(r *Run, f *ssa.Function, rule string) {
	p := r.P
	ui := p.typ("main.uiContext")
	if ui == nil {
		r.Violate("anchor", "session", "-", "the session is not in the source", nil)
		return
	}
	var ctx *Term
	cl := &Client{Name: fnName(f), KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(g *ssa.Function) (bool, bool) {
		if g.Parent() != nil {
			return true, true
		}
		return pkgOf(g) == "main" && (touchesField(g, ui, "user") || touchesField(g, ui, "master")) && len(g.Blocks) <= 25 && !p.reachesAny(g, "crypt.Decrypt", "crypt.Encrypt", "crypt.DeriveKey"), true
	}
	m := newSim(p, cl)
	T := m.T
	var user0, master0 *Term
	// notOwn says that the entry called src is not the session's user
	notOwn := func(s *State, src *Term, user *Term) bool {
		for t, b := range s.facts {
			if x := isUserTest(t); x == src && !b {
				return true
			}
			if t.op != OBin || t.tok != tokEQL || b {
				continue
			}
			for k := 0; k < 2; k++ {
				a, o := t.args[k], t.args[1-k]
				if (a == user || mentionsTerm(a, user)) && mentionsTerm(o, src) {
					return true
				}
			}
		}
		// not a user's name, or none is used: no user at all
		for t, b := range s.facts {
			if b && t.op == OBin && t.tok == tokEQL {
				for k := 0; k < 2; k++ {
					a, o := t.args[k], t.args[1-k]
					if a.op == OLen && o == T.Zero && (mentionsTerm(a.args[0], src) && a.args[0] != src || a.args[0] == user) || isStr(o, "") && (a == user || mentionsTerm(a, src) && a != src) {
						return true
					}
				}
			}
		}
		for _, t := range T.list {
			if t.name == "blobformat.SplitUsername" && (t.op == OCall || t.op == OPure) && len(t.args) == 1 && t.args[0] == src && s.ProveLE(T.Len(t), T.Zero) {
				return true
			}
		}
		return s.ProveLE(T.Len(user), T.Zero) || s.ProveLE(T.Len(src), T.Int(int64(len(userPre))))
	}
	if rule == "session" {
		cl.OnResult = func(ev *CallEv, res *Term) {
			if ev.Name != "(blobformat.Blobs).Rename" {
				return
			}
			s := ev.S
			s.cl["ren"] = T.Tuple(res, ev.Args[1], ev.Args[2])
		}
		cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
			k := s.cl["ren"]
			if k == nil || s.NonNil(k.args[0]) || !s.IsNil(k.args[0]) {
				return
			}
			r.Oblige("session", p.instrPos(in))
			uuid, dst := k.args[1], k.args[2]
			now := s.loadField(ctx, ptrTo(ui), "user")
			if now != user0 {
				if !mentionsTerm(now, dst) {
					r.Violate("session", "to|"+fnName(f), p.instrPos(in), "the session's user becomes something else than the renamed user: "+short(now), s.Trail(12))
				}
				return
			}
			src := sourceName(s, uuid)
			if src == nil || !notOwn(s, src, user0) {
				r.Violate("session", "own|"+fnName(f), p.instrPos(in), "the session's own user can be renamed while the session goes on under the old name, its key is not found when the file is saved or users are changed", s.Trail(12))
			}
		}
	} else {
		dropped := func(s *State) bool {
			for _, n := range []string{"master", "ivm"} {
				v := s.loadField(ctx, ptrTo(ui), n)
				if !s.IsNil(v) && !s.ProveLE(T.Len(v), T.Zero) {
					return false
				}
			}
			return true
		}
		cl.OnCall = func(ev *CallEv) {
			if ev.Name != "(*txlogs.DB).Delete" && ev.Name != "(txlogs.DB).Delete" {
				return
			}
			s := ev.S
			src := sourceName(s, ev.Args[1])
			r.Oblige("delete", p.instrPos(ev.Instr))
			if src == nil {
				return // not chosen by its name
			}
			if notOwn(s, src, user0) {
				return
			}
			only := false
			for _, t := range m.T.list {
				if t.op != OLen {
					continue
				}
				if k, i := resOf(t.args[0], "(blobformat.Blobs).Users"); k != nil && i == 0 && s.IsNil(errOf(T, k, 1)) && s.ProveLE(t, T.One) {
					only = true
				}
			}
			if !only {
				r.Violate("delete", "only|"+fnName(f), p.instrPos(ev.Instr), "the session's own user can be deleted although there are other users", s.Trail(12))
			}
			s.cl["own"] = T.True
		}
		cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
			if s.cl["own"] != nil && succeeds(s, res) && !dropped(s) {
				r.Violate("delete", "master|"+fnName(f), p.instrPos(in), "the last user can be deleted while the session keeps its master key, the file cannot be saved", s.Trail(12))
			}
			if s.cl["own"] == nil && s.loadField(ctx, ptrTo(ui), "master") != master0 {
				r.Violate("delete", "kept|"+fnName(f), p.instrPos(in), "the session loses its master key although its user was not deleted, the file is saved without its users", s.Trail(12))
			}
		}
	}
	m.Run(f, func(s *State, ps []*Term) {
		for i, q := range f.Params {
			if types.Identical(q.Type(), ptrTo(ui)) {
				ctx = ps[i]
				user0 = s.loadField(ctx, ptrTo(ui), "user")
				master0 = s.loadField(ctx, ptrTo(ui), "master")
			}
		}
	})
	if ctx == nil {
		r.Violate("anchor", rule+"|"+fnName(f), "-", "entries are renamed or deleted by a function without a session", nil)
		return
	}
	r.absorb(m, fnName(f))
}

// sourceName: the name an entry was found by.
func sourceName(s *State, uuid *Term) *Term {
	if k := callOf(uuid); k.op == OCall && k.name == "(blobformat.Blobs).FindByName" && len(k.args) > 1 && uuid.op == OExtract {
		return k.args[1]
	}
	return nil
}

// touchesField: f uses the field of the struct.
func touchesField(f *ssa.Function, T types.Type, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), T) && structFieldName(T, fa.Field) == name {
				return true
			}
		}
	}
	return false
}
