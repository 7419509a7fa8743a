package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C33", Title: "one-time codes come from the entry's own secret at this moment", Run: runC33,
		Explanation: "Every function that has a one-time code computed is executed abstractly up to the call of the library and to its ends: what is handed to the library must be the secret of the key that was parsed from the field of the entry itself and a time that was read from the clock in the same run, and a code is handed out only if the library reported no error. Where the program shows codes, the stored secret itself must not be used in place of the code."})
}

const otpPkg = "github.com/pquerna/otp"

// whole undoes that a structure was taken apart into its fields.
func whole(x *Term) *Term {
	for x.op == OStruct && len(x.args) > 0 && x.args[0].op == OField {
		x = x.args[0].args[0]
	}
	return x
}

func runC33(r *Run) {
	r.Rule("code: a code is computed from the secret of the key that was parsed, without an error, from the entry's own field, and from a time read from the clock on that occasion, and only for keys of time-based codes")
	r.Rule("result: what is handed out without an error is the code the library computed without an error, or nothing if the entry has no secret")
	r.Rule("shown: where codes are shown or copied the stored secret is not used in their place, and a code only if there was no error; it is the code of the entry that was selected")
	r.Rule("stored: the two-factor field is given what was typed, or a key whose secret is what was typed")
	p := r.P
	twoFactorKey := ""
	if bf := p.ByPkg["blobformat"]; bf != nil {
		if k, ok := bf.Pkg.Scope().Lookup("KeyTwoFactor").(*types.Const); ok && k.Val().Kind() == constant.String {
			twoFactorKey = constant.StringVal(k.Val())
		}
	}
	if twoFactorKey == "" {
		r.Violate("anchor", "field", "-", "the name of the two-factor field is not in the source", nil)
		return
	}
	isGen := func(n string) bool {
		return strings.HasPrefix(n, otpPkg) && strings.Contains(n, "GenerateCode")
	}
	gens := map[*ssa.Function]bool{} // functions that compute codes
	for _, f := range p.modFuncs() {
		if directCalls(f, func(n string, _ ssa.CallInstruction) bool { return isGen(n) }) {
			gens[f] = true
		}
	}
	if len(gens) == 0 {
		r.Violate("anchor", "codes", "-", "nothing computes one-time codes", nil)
		return
	}
	// those that go on through helpers: a function whose result does not hang
	// on parameters it was not told about is where the code is made
	inl := map[*ssa.Function]bool{}
	makers := map[*ssa.Function]bool{}
	todo := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.modFuncs() {
		if gens[f] {
			todo = append(todo, f)
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		q := *r
		if codeMade(&q, f, inl, isGen, twoFactorKey, true) {
			makers[f] = true
			codeMade(r, f, inl, isGen, twoFactorKey, false)
			continue
		}
		// the secret or the time are given to it: its callers are looked at
		inl[f] = true
		cs := p.callers(f)
		if len(cs) == 0 {
			r.Violate("code", "nobody|"+fnName(f), p.pos(f.Pos()), "a code is computed from what nobody hands in", nil)
		}
		todo = append(todo, cs...)
	}
	r.Need("code", 1)
	r.Need("result", 1)
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" || f.Parent() != nil || makers[f] {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					fn := c.Common().StaticCallee()
					if makers[fn] || fnName(fn) == "main.copyToClipboard" {
						direct = true
					}
				}
			}
		}
		if direct && looksUp(f) {
			codeShown(r, f, makers, twoFactorKey)
		}
	}
	r.Need("shown", 3)
	n := 0
	for _, f := range p.modFuncs() {
		if pkgOf(f) == "blobformat" && f.Object() != nil && f.Object().Exported() && directCalls(f, func(n string, _ ssa.CallInstruction) bool { return n == otpPkg+".NewKeyFromURL" }) && p.reachesAny(f, "(*txlogs.DB).Set") {
			secretStored(r, f, twoFactorKey)
			n++
		}
	}
	r.Need("stored", 1)
}

// codeMade looks at a function that has a code computed. When only asked, it
// says whether secret and time are known inside it.
func codeMade(r *Run, f *ssa.Function, inl map[*ssa.Function]bool, isGen func(string) bool, twoFactorKey string, ask bool) bool {
	p := r.P
	inside := true
	cl := &Client{Name: fnName(f), KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(g *ssa.Function) (bool, bool) {
		return inl[g] || g.Parent() != nil || pkgOf(g) == "blobformat" && len(g.Blocks) <= 12 && !p.reachesAny(g, "(*txlogs.DB).UpdateSnapshot"), true
	}
	m := newSim(p, cl)
	T := m.T
	var params []*Term
	isParam := func(x *Term) bool {
		for _, q := range params {
			if q == x {
				return true
			}
		}
		return false
	}
	bad := func(rule, key string, s *State, in ssa.Instruction, msg string) {
		if !ask {
			r.Violate(rule, key+"|"+fnName(f), p.instrPos(in), msg, s.Trail(12))
		}
	}
	keyOf := func(x *Term) *Term { // the text a key was parsed from
		c, i := resOf(x, otpPkg+".NewKeyFromURL")
		if c == nil || i != 0 {
			return nil
		}
		return c
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		if !isGen(ev.Name) {
			return
		}
		s, in := ev.S, ev.Instr
		if !ask {
			r.Oblige("code", p.instrPos(in))
		}
		if !strings.Contains(ev.Name, "/totp.") {
			bad("code", "kind", s, in, "a code is computed that is not based on the time")
			return
		}
		if len(ev.Args) > 2 {
			// the usual settings, or those of the key
			usual := []int64{30, -1, 6, 0}
			for i, a := range whole(ev.Args[2]).args {
				if n, ok := a.intVal(); ok && i < len(usual) && usual[i] >= 0 && n != usual[i] && !(i == 0 && n == 0) {
					bad("code", "settings", s, in, "codes are computed with unusual settings that do not come from the key")
				}
			}
		}
		sec := ev.Args[0]
		for len(sec.args) == 1 && (sec.name == "strings.TrimSpace" || sec.name == "strings.ToUpper") {
			sec = sec.args[0]
		}
		if isParam(sec) {
			inside = false
		} else if sec.name != "(*"+otpPkg+".Key).Secret" || len(sec.args) != 1 {
			bad("code", "secret", s, in, "a code is computed from something else than the secret of the parsed key: "+short(sec))
		} else if isParam(sec.args[0]) {
			inside = false
		} else if c := keyOf(sec.args[0]); c == nil {
			bad("code", "secret", s, in, "a code is computed from a key that was not parsed: "+short(sec))
		} else {
			u := c.args[0]
			for len(u.args) == 1 && u.name == "strings.TrimSpace" {
				u = u.args[0]
			}
			switch {
			case isParam(u):
				inside = false
			case u.op == OLookup && isStr(u.args[1], twoFactorKey) && isParam(u.args[0]):
				s.cl["field"] = u
			default:
				bad("code", "field", s, in, "the key is not the one that is stored in the entry: "+short(u))
			}
			if !s.IsNil(errOf(T, c, 1)) {
				bad("code", "parsed", s, in, "a code is computed although parsing the key may have failed")
			}
			typed := false
			for t, b := range s.facts {
				if b && t.op == OBin && t.tok == tokEQL {
					for k := 0; k < 2; k++ {
						if isStr(t.args[k], "totp") && t.args[1-k].name == "(*"+otpPkg+".Key).Type" && t.args[1-k].args[0] == sec.args[0] {
							typed = true
						}
					}
				}
			}
			if !typed {
				bad("code", "type", s, in, "a code based on the time is computed although the key may be of another kind")
			}
		}
		now := whole(ev.Args[1])
		for len(now.args) > 0 && (now.name == "(time.Time).UTC" || now.name == "(time.Time).Local" || now.name == "(time.Time).In") {
			now = whole(now.args[0])
		}
		switch {
		case isParam(now):
			inside = false
		case callOf(now).name == "time.Now" && callOf(now).op == OCall:
		default:
			bad("code", "time", s, in, "a code is computed for another time than that of the clock: "+short(now))
		}
		s.cl["code"] = res
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if ask || len(res) == 0 {
			return
		}
		if len(res) > 1 && !succeeds(s, res) {
			return
		}
		r.Oblige("result", fnName(f)+" "+p.instrPos(in))
		if c := s.cl["code"]; c != nil {
			k, i := callOf(res[0]), 0
			if k != callOf(c) && res[0] != T.Extract(c, 0, res[0].typ) || i != 0 {
				bad("result", "code", s, in, "something else is handed out than the code that was computed: "+short(res[0]))
			} else if e := errOf(T, c, 1); !s.IsNil(e) && res[len(res)-1] != e {
				bad("result", "err", s, in, "a code is handed out although computing it may have failed")
			}
			return
		}
		if !isStr(res[0], "") && !s.ProveLE(T.Len(res[0]), T.Zero) {
			bad("result", "other", s, in, "something is handed out as a code that was not computed: "+short(res[0]))
			return
		}
		empty := false
		for _, t := range T.list {
			if t.op == OLookup && isStr(t.args[1], twoFactorKey) && isParam(t.args[0]) && s.ProveLE(T.Len(t), T.Zero) {
				empty = true
			}
			if t.op == OLookupOk && isStr(t.args[1], twoFactorKey) && isParam(t.args[0]) && s.Known(t, false) {
				empty = true
			}
		}
		if !empty {
			bad("result", "none", s, in, "no code and no error are handed out although the entry may have a secret")
		}
	}
	m.Run(f, func(s *State, ps []*Term) { params = ps })
	if !ask {
		r.absorb(m, fnName(f))
	}
	return inside
}

// codeShown looks at a function that shows or copies values of entries.
func codeShown(r *Run, f *ssa.Function, makers map[*ssa.Function]bool, twoFactorKey string) {
	p := r.P
	cl := &Client{Name: fnName(f), KeepFacts: true, Coarse: len(f.Blocks) > 45}
	cl.Facts = func(t *Term) bool {
		return t.any(func(x *Term) bool {
			return isStr(x, twoFactorKey) || (x.op == OCall || x.op == OPure) && makers[p.fn(x.name)]
		})
	}
	cl.Track = func(string) bool { return true }
	makes := func(n string) bool {
		for g := range makers {
			if fnName(g) == n {
				return true
			}
		}
		return false
	}
	cl.Inline = func(g *ssa.Function) (bool, bool) {
		if g.Parent() != nil {
			return true, true
		}
		return pkgOf(g) == "main" && len(g.Blocks) <= 12 && directCalls(g, func(n string, _ ssa.CallInstruction) bool { return makes(n) }), true
	}
	m := newSim(p, cl)
	T := m.T
	entryMap := func(t *Term) bool {
		if t == nil || t.typ == nil {
			return false
		}
		mt, ok := t.typ.Underlying().(*types.Map)
		return ok && isStringType(mt.Key()) && isStringType(mt.Elem())
	}
	check := func(s *State, x *Term, in ssa.Instruction) {
		y := x
		for y.op == OConvert && len(y.args) > 0 {
			y = y.args[0]
		}
		if y.op == OExtract && len(y.args) > 0 && y.args[0].op == OLookup {
			y = y.args[0]
		}
		if y.op == OLookup && entryMap(y.args[0]) {
			r.Oblige("shown", fnName(f)+" "+p.instrPos(in))
			k := y.args[1]
			if isStr(k, twoFactorKey) || !func() bool { _, c := k.strVal(); return c }() && !s.Known(T.Eq(k, T.Str(twoFactorKey)), false) {
				r.Violate("shown", "raw|"+fnName(f), p.instrPos(in), "the stored two-factor secret may be shown or copied in place of its code", s.Trail(12))
			}
			return
		}
		if c := callOf(x); c != nil && c.op == OCall && makes(c.name) {
			r.Oblige("shown", fnName(f)+" "+p.instrPos(in))
			if !isStringType(x.typ) {
				return
			}
			if !s.IsNil(errOf(T, c, 1)) {
				r.Violate("shown", "err|"+fnName(f), p.instrPos(in), "a code is shown or copied although computing it may have failed", s.Trail(12))
			}
		}
	}
	harmless := func(n string) bool { return strings.HasPrefix(n, "strings.") || makes(n) }
	cl.OnCall = func(ev *CallEv) {
		if makes(ev.Name) {
			s := ev.S
			r.Oblige("shown", "entry "+fnName(f)+" "+p.instrPos(ev.Instr))
			if c, ok := ev.Instr.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 && !lookedUp(c.Common().Args[0], map[ssa.Value]bool{}) {
				r.Violate("shown", "entry|"+fnName(f), p.instrPos(ev.Instr), "the code is that of something else than an entry that was looked up", s.Trail(12))
			}
			return
		}
		if harmless(ev.Name) {
			return
		}
		for _, a := range ev.Args {
			check(ev.S, a, ev.Instr)
		}
	}
	cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) { check(s, val, in) }
	m.Run(f, nil)
	r.absorb(m, fnName(f))
}

// secretStored looks at what becomes the two-factor field.
func secretStored(r *Run, f *ssa.Function, twoFactorKey string) {
	p := r.P
	cl := &Client{Name: fnName(f), KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(g *ssa.Function) (bool, bool) {
		return g.Parent() != nil || pkgOf(g) == "blobformat" && len(g.Blocks) <= 12 && !p.reachesAny(g, "(*txlogs.DB).UpdateSnapshot"), true
	}
	m := newSim(p, cl)
	var params []*Term
	// from: x is made of y, also through the arguments of a call
	var from func(s *State, x, y *Term, d int) bool
	from = func(s *State, x, y *Term, d int) bool {
		return d < 6 && x.any(func(z *Term) bool {
			if z == y {
				return true
			}
			if z.op == OSlice {
				for _, e := range s.elems(z) {
					if e != z && from(s, e, y, d+1) {
						return true
					}
				}
			}
			return false
		})
	}
	cl.OnMapUpdate = func(s *State, mp, k, v *Term, in ssa.Instruction) {
		if isStr(k, "secret") {
			s.cl["sec"] = m.T.Tuple(mp, v)
		}
	}
	cl.OnCall = func(ev *CallEv) {
		s := ev.S
		if ev.Name == "(net/url.Values).Set" && isStr(ev.Args[1], "secret") {
			s.cl["sec"] = m.T.Tuple(ev.Args[0], ev.Args[2])
		}
		if ev.Name != "(*txlogs.DB).Set" && ev.Name != "(txlogs.DB).Set" || !isStr(ev.Args[2], twoFactorKey) {
			return
		}
		r.Oblige("stored", p.instrPos(ev.Instr))
		if ev.Args[1] != params[1] {
			r.Violate("stored", "entry|"+fnName(f), p.instrPos(ev.Instr), "the secret is stored in another entry than the one that was given", s.Trail(12))
		}
		v, typed := ev.Args[3], params[len(params)-1]
		if from(s, v, typed, 0) {
			return
		}
		if k := s.cl["sec"]; k != nil && from(s, k.args[1], typed, 0) {
			return
		}
		r.Violate("stored", "value|"+fnName(f), p.instrPos(ev.Instr), "the key that is stored does not come from what was typed: "+short(v), s.Trail(12))
	}
	m.Run(f, func(s *State, ps []*Term) { params = ps })
	r.absorb(m, fnName(f))
}

// looksUp: f reads fields of a map itself.
func looksUp(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				return true
			case ssa.CallInstruction:
				if fn := x.Common().StaticCallee(); fn != nil && pkgOf(fn) == "blobformat" && fn.Signature.Recv() != nil {
					return true
				}
			}
		}
	}
	return false
}

// directCalls: f itself makes such a call.
func directCalls(f *ssa.Function, ok func(n string, c ssa.CallInstruction) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, is := in.(ssa.CallInstruction); is && ok(calleeName(c.Common()), c) {
				return true
			}
		}
	}
	return false
}

// lookedUp: v is an entry as the store gave it out, or was handed in.
func lookedUp(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.ChangeType:
		return lookedUp(x.X, seen)
	case *ssa.Extract:
		return lookedUp(x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			if !lookedUp(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), types.Typ[types.String])
	case *ssa.Call:
		fn := x.Common().StaticCallee()
		return fn != nil && (pkgOf(fn) == "blobformat" || pkgOf(fn) == "txlogs" || pkgOf(fn) == "main")
	case *ssa.UnOp:
		return true
	}
	return false
}
