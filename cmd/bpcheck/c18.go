package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C18", Title: "names are unique and reserved fields out of reach", Run: func(r *Run) { runC18(r, false) },
		Explanation: "Every place that sets or deletes a field is found; the operations on entries are executed abstractly for arbitrary entries and arguments. A name may be written only after a pass over all current entries compared it with each, a field whose name is not fixed in the program only after it was told apart from every reserved one."})
	register(&Check{ID: "C19", Title: "changes are dated", Run: func(r *Run) { runC18(r, true) },
		Explanation: "The operations on entries are executed abstractly for arbitrary entries and arguments: on every path on which one changes something and does not fail, it also writes the current time as the time of the update to the same entry, in the form in which it is read."})
}

const (
	dbSet = "(*txlogs.DB).Set"
	dbDel = "(*txlogs.DB).DeleteKey"
	dbAdd = "(*txlogs.DB).Add"
	dbUpd = "(*txlogs.DB).UpdateSnapshot"
)

// foldCompares: calls of two strings that compare them whatever their case.
func foldCall(x *Term) (a, b *Term, ok bool) {
	if (x.op == OCall || x.op == OPure) && strings.HasSuffix(x.name, "strings.EqualFold") && len(x.args) == 2 {
		return x.args[0], x.args[1], true
	}
	return nil, nil, false
}

// lowered: x is k, or k in lower case; fold says which.
func lowered(x, k *Term) (same, fold bool) {
	if x == k {
		return true, false
	}
	if (x.op == OCall || x.op == OPure) && x.name == "strings.ToLower" && len(x.args) == 1 && x.args[0] == k {
		return true, true
	}
	return false, false
}

// constElems lists the constants a package level slice, array or map of
// strings holds, if it is only ever set by its declaration.
func (p *Prog) constElems(g *ssa.Global) (out []string, ok bool) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) && (f.Name() != "init" || f.Pkg != g.Pkg) {
					return nil, false
				}
			}
		}
	}
	ini := g.Pkg.Func("init")
	if ini == nil {
		return nil, false
	}
	str := func(v ssa.Value) bool {
		k, isC := v.(*ssa.Const)
		if !isC || k.Value == nil || k.Value.Kind() != constant.String {
			return false
		}
		out = append(out, constant.StringVal(k.Value))
		return true
	}
	var val ssa.Value
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if val != nil {
					return nil, false
				}
				val = st.Val
			}
		}
	}
	base := val
	switch x := val.(type) {
	case *ssa.Slice:
		base = x.X
	case *ssa.MakeMap:
	case nil:
		base = g // an array is filled in place
	default:
		return nil, false
	}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && ia.X == base && !str(x.Val) {
					return nil, false
				}
			case *ssa.MapUpdate:
				if x.Map == base {
					if k, isC := x.Value.(*ssa.Const); isC && k.Value != nil && k.Value.ExactString() == "false" {
						continue
					}
					if !str(x.Key) {
						return nil, false
					}
				}
			}
		}
	}
	return out, len(out) > 0
}

// globalOf: the package level variable x was loaded from.
func globalOf(x *Term) *ssa.Global {
	for x != nil && len(x.args) > 0 && (x.op == OLoad || x.op == OSlice) {
		x = x.args[0]
	}
	if x != nil && x.op == OGlobal {
		return x.obj.(*ssa.Global)
	}
	return nil
}

type reservedModel struct {
	r      *Run
	dated  bool // C19
	consts map[string]string
	elems  map[*ssa.Global][]string
}

func runC18(r *Run, dated bool) {
	p := r.P
	if dated {
		r.Rule("stamp: an operation on an entry that changes it and does not fail sets the time of the update on that entry")
		r.Rule("now: what is written as the time of the update is the current time in nanoseconds, as a decimal number")
		r.Rule("read: the time of the update is read back the way it was written")
	} else {
		r.Rule("unique: a name is written only after all current entries were gone through and each was found to have another name")
		r.Rule("named: an entry that is added gets a name before anything else can fail")
		r.Rule("reserved: a field whose name comes from outside is set only if it is none of the reserved ones in any letter case, and deleted only if it is none but the two-factor secret")
		r.Rule("twofactor: a two-factor secret is stored only after it was parsed without an error")
		r.Rule("refused: what is refused is reported as an error and nothing was written")
	}
	m := &reservedModel{r: r, dated: dated, consts: map[string]string{}, elems: map[*ssa.Global][]string{}}
	bf := p.ByPkg["blobformat"]
	if bf == nil || p.typ("blobformat.Blobs") == nil {
		r.Violate("anchor", "blobformat", "-", "the package blobformat or its type Blobs is not in the source", nil)
		return
	}
	for _, n := range []string{"KeyName", "KeyUpdated", "KeyTwoFactor", "KeyIV", "KeySalt", "KeyMKey"} {
		k, ok := bf.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || k.Val().Kind() != constant.String {
			r.Violate("anchor", n, "-", "the constant "+n+" is not in the source", nil)
			return
		}
		m.consts[n] = constant.StringVal(k.Val())
	}
	// the operations: exported functions and methods of blobformat that
	// change something
	var roots []*ssa.Function
	blobs := p.typ("blobformat.Blobs")
	for _, f := range p.modFuncs() {
		if f.Parent() != nil || pkgOf(f) != "blobformat" || !token.IsExported(f.Name()) || f.Synthetic != "" {
			continue
		}
		if rv := f.Signature.Recv(); rv == nil || !types.Identical(deref(rv.Type()), blobs) {
			continue
		}
		if p.reachesAny(f, dbSet, dbDel, dbAdd) {
			roots = append(roots, f)
		}
	}
	if !dated {
		// and whoever else sets a field that is not an ordinary one
		seen := map[*ssa.Function]bool{}
		for _, f := range p.modFuncs() {
			if q := pkgOf(f); q == "txlogs" || q == "blobformat" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || !wasCalled(c, dbSet, dbDel, dbAdd) {
						continue
					}
					root := f
					for root.Parent() != nil {
						root = root.Parent()
					}
					if m.ordinary(c) || seen[root] {
						continue
					}
					seen[root] = true
					roots = append(roots, root)
				}
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	for _, f := range roots {
		m.run(f)
	}
	if dated {
		m.readBack()
		r.Need("stamp", 7)
		r.Need("now", 1)
		r.Need("read", 1)
	} else {
		r.Need("unique", 2)
		r.Need("reserved", 2)
		r.Need("named", 1)
		r.Need("twofactor", 1)
	}
}

// ordinary: the field the call names is fixed and neither a name, a time nor
// a two-factor secret.
func (m *reservedModel) ordinary(c ssa.CallInstruction) bool {
	if wasCalled(c, dbAdd) {
		return false
	}
	for _, v := range m.r.P.sources(c.Common().Args[2], prov{}) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return false
		}
		switch constant.StringVal(k.Value) {
		case m.consts["KeyName"], m.consts["KeyUpdated"], m.consts["KeyTwoFactor"]:
			return false
		}
	}
	m.r.Oblige("reserved", "fixed "+m.r.P.instrPos(c))
	return true
}

func (m *reservedModel) globalElems(g *ssa.Global) []string {
	if e, ok := m.elems[g]; ok {
		return e
	}
	e, _ := m.r.P.constElems(g)
	m.elems[g] = e
	return e
}

func (m *reservedModel) run(root *ssa.Function) {
	r, p := m.r, m.r.P
	cl := &Client{Name: "entries", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if pkgOf(f) == "txlogs" {
			return false, true
		}
		return p.reachesAny(f, dbSet, dbDel, dbAdd, dbUpd) || pkgOf(f) == "blobformat", true
	}
	sim := newSim(p, cl)
	T := sim.T
	at := func(in ssa.Instruction) string { return p.instrPos(in) }
	name := T.Str(m.consts["KeyName"])
	str := func(x *Term) string { v, _ := x.strVal(); return v }
	bad := func(rule, key string, s *State, in ssa.Instruction, msg string) {
		if (rule == "stamp" || rule == "now") == m.dated {
			r.Violate(rule, fnName(root)+"|"+key, at(in), msg, s.Trail(12))
		}
	}
	oblige := func(rule, inst string) {
		if (rule == "stamp" || rule == "now") == m.dated {
			r.Oblige(rule, inst)
		}
	}
	// iteration of the pass that is going on
	endIter := func(s *State) {
		if s.cl["iter"] != nil && s.cl["cmp"] == nil {
			s.cl["bad"] = T.True
		}
		delete(s.cl, "cmp")
		delete(s.cl, "iter")
	}
	begin := func(s *State, over *Term) {
		for _, k := range []string{"iter", "cmp", "bad", "hit", "target", "fold"} {
			delete(s.cl, k)
		}
		s.cl["scan"] = over
		s.cl["fold"] = T.True
	}
	// nameOf: x is the name of an entry of the snapshot gone through
	nameOf := func(s *State, x *Term) bool {
		return x.op == OLookup && x.args[1] == name && s.cl["iter"] != nil && x.args[0].contains(s.cl["iter"])
	}
	elemOf := func(s *State, x *Term) bool {
		sc := s.cl["scan"]
		return sc != nil && x.op == OLoad && x.args[0].op == OIndexAddr && globalOf(x.args[0].args[0]) != nil && globalOf(x.args[0].args[0]) == globalOf(sc)
	}
	compared := func(s *State, other *Term, equal, fold bool) {
		if t := s.cl["target"]; t != nil && t != other {
			s.cl["bad"] = T.True
		}
		s.cl["target"] = other
		s.cl["cmp"] = T.True
		if equal {
			s.cl["hit"] = T.True
			if k, ok := other.strVal(); ok {
				// a fixed field that is not in the list is not found in it
				in := false
				es := m.globalElems(globalOf(s.cl["scan"]))
				for _, e := range es {
					in = in || strings.EqualFold(e, k)
				}
				if len(es) > 0 && !in {
					s.cl["dead"] = T.True
				}
			}
		}
		if !fold {
			delete(s.cl, "fold")
		}
	}
	cl.OnInstr = func(s *State, in ssa.Instruction) {
		if rg, ok := in.(*ssa.Range); ok {
			x := s.val(rg.X)
			if x.typ != nil && x.op == OLoad && x.args[0].op == OFieldAddr && strings.HasSuffix(string(x.args[0].obj.(fieldKey)), "txlogs.DB.Snapshot") {
				begin(s, x)
				if s.cl["fresh"] == nil {
					s.cl["bad"] = T.True
				}
			}
		}
	}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {}
	cl.OnBranch = func(s *State, c *Term, v bool, in ssa.Instruction) {
		for c.op == ONot {
			c, v = c.args[0], !v
		}
		// the passes
		if c.op == OExtract && c.idx == 0 && c.args[0].op == OCall && c.args[0].name == "range" {
			endIter(s)
			if s.cl["scan"] != nil {
				if v {
					s.cl["iter"] = c.args[0]
				} else if s.cl["bad"] == nil && s.cl["hit"] == nil {
					if t := s.cl["target"]; t != nil {
						s.cl["unique"] = t
					} else {
						s.cl["unique"] = T.None
					}
				}
			}
			return
		}
		var over *Term // the list whose length the index is compared with
		first := false
		if c.op == OBin && c.tok == token.LSS && c.args[1].op == OLen {
			over, first = c.args[1].args[0], c.args[0].op == OConst
		} else if c.op == OBin && c.tok == token.EQL && c.args[0] == T.Zero && c.args[1].op == OLen {
			over, first, v = c.args[1].args[0], true, !v
		}
		if over != nil {
			if g := globalOf(over); g != nil && fullLoop(in) {
				if sc := s.cl["scan"]; sc == nil || globalOf(sc) != g || first {
					begin(s, over)
				}
				endIter(s)
				if v {
					s.cl["iter"] = over
				} else if s.cl["bad"] == nil && s.cl["hit"] == nil {
					if t := s.cl["target"]; t != nil {
						s.cl["guard"] = t
						if s.cl["fold"] != nil {
							s.cl["guardfold"] = t
						}
						s.cl["guardlist"] = s.cl["scan"]
					} else {
						// it has elements
						s.cl["dead"] = T.True
					}
				}
				return
			}
		}
		// the comparisons
		if a, b, ok := foldCall(c); ok {
			for _, q := range [][2]*Term{{a, b}, {b, a}} {
				if nameOf(s, q[0]) || elemOf(s, q[0]) {
					compared(s, q[1], v, true)
					return
				}
			}
		}
		if c.op == OBin && c.tok == token.EQL {
			for i := 0; i < 2; i++ {
				if nameOf(s, c.args[i]) || elemOf(s, c.args[i]) {
					if v && nameOf(s, c.args[i]) {
						// it was found, so it is there
						it := s.cl["iter"]
						s.Assume(T.Eq(T.Len(T.Extract(it, 1, types.Typ[types.String])), T.Zero), false)
						s.Assume(T.Eq(c.args[i].args[0], T.Nil), false)
					}
					o, f := c.args[1-i], false
					if o.op == OPure || o.op == OCall {
						if o.name == "strings.ToLower" && len(o.args) == 1 && elemOf(s, c.args[i]) {
							o, f = o.args[0], true
						}
					}
					compared(s, o, v, f)
					return
				}
			}
		}
	}
	// told: key is known to be none of want
	told := func(s *State, key *Term, want []string, fold bool) (missing string) {
		for _, w := range want {
			ok := false
			if s.cl["guard"] == key && (!fold || s.cl["guardfold"] == key) {
				for _, e := range m.globalElems(globalOf(s.cl["guardlist"])) {
					ok = ok || e == w
				}
			}
			for f, v := range s.facts {
				if v || ok {
					continue
				}
				switch {
				case f.op == OBin && f.tok == token.EQL:
					for i := 0; i < 2; i++ {
						if same, lo := lowered(f.args[1-i], key); str(f.args[i]) == w && same && (lo || !fold) {
							ok = true
						}
					}
				case f.op == OLookup || f.op == OLookupOk:
					if same, lo := lowered(f.args[1], key); same && (lo || !fold) {
						if g := globalOf(f.args[0]); g != nil {
							for _, e := range m.globalElems(g) {
								ok = ok || e == w
							}
						}
					}
				default:
					if a, b, isF := foldCall(f); isF && (a == key && str(b) == w || b == key && str(a) == w) {
						ok = true
					}
					if (f.op == OCall || f.op == OPure) && strings.HasSuffix(f.name, "slices.Contains") && len(f.args) == 2 {
						if same, lo := lowered(f.args[1], key); same && (lo || !fold) {
							if g := globalOf(f.args[0]); g != nil {
								for _, e := range m.globalElems(g) {
									ok = ok || e == w
								}
							}
						}
					}
				}
			}
			if !ok {
				return w
			}
		}
		return ""
	}
	cl.OnCall = func(ev *CallEv) {
		s := ev.S
		in := ev.Instr
		if s.cl["dead"] != nil {
			return
		}
		switch ev.Name {
		case dbAdd:
			delete(s.cl, "fresh")
		case dbSet, dbDel:
			delete(s.cl, "fresh")
			uuid, key := ev.Args[1], ev.Args[2]
			k, isC := key.strVal()
			if u := s.cl["chg"]; u != nil && u != uuid {
				s.cl["chg2"] = T.True
			}
			if !isC {
				oblige("reserved", ev.Name+" "+at(in))
				want := []string{"KeyName", "KeyUpdated", "KeyIV", "KeySalt", "KeyMKey"}
				if ev.Name == dbSet {
					want = append(want, "KeyTwoFactor")
				}
				var ws []string
				for _, w := range want {
					ws = append(ws, m.consts[w])
				}
				if w := told(s, key, ws, ev.Name == dbSet); w != "" {
					verb := "set"
					if ev.Name == dbDel {
						verb = "deleted"
					}
					bad("reserved", verb+"|"+w, s, in, "a field is "+verb+" that may be the reserved field "+w)
				}
				s.cl["chg"] = uuid
				return
			}
			if s.cl["guard"] == key {
				for _, e := range m.globalElems(globalOf(s.cl["guardlist"])) {
					if e == k {
						s.cl["dead"] = T.True // it would have been found
						return
					}
				}
			}
			if ev.Name == dbDel {
				if k == m.consts["KeyName"] || k == m.consts["KeyUpdated"] {
					bad("reserved", "deleted|"+k, s, in, "the reserved field "+k+" is deleted")
				}
				s.cl["chg"] = uuid
				return
			}
			switch k {
			case m.consts["KeyUpdated"]:
				oblige("now", at(in))
				if !isNowText(ev.Args[3]) {
					bad("now", "value", s, in, "what is written as the time of the update is not the current time: "+short(ev.Args[3]))
				}
				s.cl["stamp"] = uuid
				return
			case m.consts["KeyName"]:
				oblige("unique", at(in))
				switch u := s.cl["unique"]; {
				case s.cl["hit"] != nil:
					bad("unique", "taken", s, in, "a name is written although another entry was found to have it")
				case u == nil:
					bad("unique", "unchecked", s, in, "a name is written without all current entries having been looked at")
				case u != T.None && u != ev.Args[3]:
					bad("unique", "other", s, in, "the name that is written is not the one that was looked for")
				}
				if s.cl["added"] == uuid {
					delete(s.cl, "added")
				}
			case m.consts["KeyTwoFactor"]:
				oblige("twofactor", at(in))
				ok := false
				for f, v := range s.facts {
					if v && f.op == OBin && f.tok == token.EQL && (f.args[0] == T.Nil || f.args[1] == T.Nil) {
						x := f.args[0]
						if x == T.Nil {
							x = f.args[1]
						}
						if c, i := resOf(x, "github.com/pquerna/otp.NewKeyFromURL"); c != nil && i == 1 && c.args[0] == ev.Args[3] {
							ok = true
						}
					}
				}
				if !ok {
					bad("twofactor", "parse", s, in, "a two-factor secret is stored that was not parsed")
				}
			}
			s.cl["chg"] = uuid
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		switch ev.Name {
		case dbUpd:
			s.cl["upd"] = res
			s.cl["fresh"] = T.True // a failure has to be returned, see OnExit
		case dbAdd:
			c := callOf(res.args[0])
			s.cl["chg"] = T.Extract(c, 0, res.args[0].typ)
			s.cl["added"] = s.cl["chg"]
			s.cl["adderr"] = T.Extract(c, 1, res.args[1].typ)
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if s.cl["dead"] != nil {
			return
		}
		failed := false
		if i := errResult(root.Signature); i >= 0 {
			failed = s.NonNil(res[i])
			if !failed && !s.IsNil(res[i]) {
				// what another function returned is returned
				if c := callOf(res[i]); c == nil {
					bad("refused", "undecided", s, in, "whether there is an error is not known")
				}
			}
		}
		if u := s.cl["upd"]; u != nil && !s.IsNil(u) && !failed {
			bad("unique", "stale", s, in, "the current entries are used although bringing them up to date failed")
		}
		a := s.cl["added"]
		if a != nil && s.NonNil(s.cl["adderr"]) {
			a = nil
			if s.cl["chg2"] == nil {
				delete(s.cl, "chg")
			}
		}
		if fn := s.cl["added"]; fn != nil {
			oblige("named", fnName(root)+" "+at(in))
		}
		if a != nil {
			bad("named", "exit", s, in, "an entry is left without a name")
		}
		chg := s.cl["chg"]
		if failed && pkgOf(root) != "blobformat" {
			return
		}
		if failed {
			oblige("refused", at(in))
			if chg != nil || s.cl["stamp"] != nil {
				bad("refused", "changed", s, in, "an error is returned after the entry was changed")
			}
			return
		}
		if chg == nil || root.Pkg == nil || pkgOf(root) != "blobformat" {
			return
		}
		oblige("stamp", fnName(root)+" "+at(in))
		if s.cl["stamp"] == nil || s.cl["stamp"] != chg || s.cl["chg2"] != nil {
			bad("stamp", "missing", s, in, "the entry is changed without the time of the update being set on it")
		}
	}
	sim.Run(root, nil)
	r.absorb(sim, fnName(root))
}

// fullLoop: the branch is the condition of a loop that counts from the first
// index by one.
func fullLoop(in ssa.Instruction) bool {
	br, ok := in.(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	h := in.Block()
	phi, off := inductive(h, c.X)
	if phi == nil {
		return false
	}
	body := loopBody(h)
	for i, e := range phi.Edges {
		if body[h.Preds[i]] {
			if q, k := inductive(h, e); q != phi || k != 1 {
				return false
			}
		} else if k, ok := e.(*ssa.Const); !ok || k.Int64()+off != 0 {
			return false
		}
	}
	return true
}

// isNowText: strconv.FormatInt(time.Now().UnixNano(), 10), however written
func isNowText(x *Term) bool {
	if x.op != OCall && x.op != OPure {
		return false
	}
	switch x.name {
	case "strconv.FormatInt":
		if n, ok := x.args[1].intVal(); !ok || n != 10 {
			return false
		}
	case "strconv.Itoa", "fmt.Sprint":
	default:
		return false
	}
	x = x.args[0]
	for x.op == OConvert || x.op == OIface {
		x = x.args[0]
	}
	if x.op != OCall && x.op != OPure || x.name != "(time.Time).UnixNano" {
		return false
	}
	x = x.args[0]
	for len(x.args) > 0 && (x.op == OStruct || x.op == OField || x.op == OExtract || (x.op == OPure || x.op == OCall) && (x.name == "(time.Time).UTC" || x.name == "(time.Time).Local")) {
		x = x.args[0]
	}
	return (x.op == OCall || x.op == OPure) && strings.HasPrefix(x.name, "time.Now")
}

// readBack: the function that gives the time of the update.
func (m *reservedModel) readBack() {
	r, p := m.r, m.r.P
	f := r.Anchor("(blobformat.Blob).Updated")
	if f == nil {
		return
	}
	cl := &Client{Name: "updated", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(*ssa.Function) (bool, bool) { return true, true }
	sim := newSim(p, cl)
	T := sim.T
	upd := T.Str(m.consts["KeyUpdated"])
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		r.Oblige("read", p.instrPos(in))
		if s.NonNil(res[1]) {
			return
		}
		var unix *Term
		res[0].any(func(x *Term) bool {
			if (x.op == OCall || x.op == OPure) && x.name == "time.Unix" {
				unix = x
			}
			return unix != nil
		})
		if unix == nil {
			for g, v := range s.facts {
				if !v && g.op == OLookupOk && g.args[1] == upd {
					return // there is none
				}
				if v && g.op == OBin && g.tok == token.EQL && g.any(func(x *Term) bool { return x.op == OLookup && x.args[1] == upd }) {
					return // it is empty
				}
			}
			r.Violate("read", "none", p.instrPos(in), "the time of the update is not read from the entry", s.Trail(8))
			return
		}
		n := unix.args[1]
		c, i := resOf(n, "strconv.ParseInt")
		sec, isC := unix.args[0].intVal()
		if !isC || sec != 0 || c == nil || i != 0 || c.args[0].op != OLookup || c.args[0].args[1] != upd {
			r.Violate("read", "form", p.instrPos(in), "the time of the update is not read as nanoseconds from its field: "+short(unix), s.Trail(8))
			return
		}
		base, _ := c.args[1].intVal()
		size, _ := c.args[2].intVal()
		if base != 10 || size != 64 {
			r.Violate("read", "base", p.instrPos(in), "the time of the update is not read as the decimal 64 bit number it was written as", nil)
		}
		if !s.IsNil(errOf(T, c, 1)) {
			r.Violate("read", "error", p.instrPos(in), "the time of the update is used although it could not be read", s.Trail(8))
		}
	}
	sim.Run(f, nil)
	r.absorb(sim, fnName(f))
}
