package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C28", Title: "a saved file can be opened by exactly the users in it", Run: runC28,
		Explanation: "The functions that make the parameters a file is encrypted with are executed abstractly: every round over the users must add one record made of that user's own name and credentials, and all users are gone through; every encryption is traced to such parameters and to the saved contents."})
}

func runC28(r *Run) {
	r.Rule("record: every round over the users of the store adds to the file's header exactly one name hash, salt, iv and wrapped key, all of that user's own entry")
	r.Rule("all: parameters for a file with users are made only after all users were gone through and none was left out")
	r.Rule("master: a file with users is encrypted with the session's master key and its iv, one without users with the session's key and salt, and only if the session has no master key")
	r.Rule("users: the users of the store are all entries whose names are those of users, and no others")
	r.Rule("given: what is encrypted is the saved store, and with such parameters")
	p := r.P
	c := newCredModel(r)
	pt := p.typ("crypt.Params")
	if c == nil || pt == nil {
		r.Violate("anchor", "params", "-", "the parameters of an encryption are not in the source", nil)
		return
	}
	makers := map[*ssa.Function]int{}
	for _, f := range p.modFuncs() {
		if pkgOf(f) != "main" || f.Parent() != nil || p.reachesAny(f, "crypt.Decrypt", "crypt.Encrypt") {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if T := res.At(i).Type(); types.Identical(T, pt) || types.Identical(T, ptrTo(pt)) {
				makers[f] = i
			}
		}
	}
	var roots []*ssa.Function
	for f := range makers {
		inner := false
		for g := range makers {
			inner = inner || g != f && p.reach(g)[f]
		}
		if !inner {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	n := 0
	for _, f := range roots {
		if p.reachesAny(f, "(blobformat.Blobs).Users") {
			n++
		}
		(&paramModel{r: r, c: c, pt: pt, widened: map[*Term][]*Term{}, seen: map[*ssa.BasicBlock]bool{}}).run(f, makers[f])
	}
	if n == 0 {
		r.Violate("anchor", "params", "-", "no function makes the parameters of an encryption from the users of the store", nil)
	}
	r.Need("record", 1)
	r.Need("master", 2)
	r.Need("all", 1)
	encryptions(r, roots)
	r.Need("given", 2)
	if f := r.Anchor("(blobformat.Blobs).Users"); f != nil {
		usersOf(r, f)
	}
	r.Need("users", 1)
}

type paramModel struct {
	r       *Run
	c       *credModel
	pt      types.Type
	widened map[*Term][]*Term
	seen    map[*ssa.BasicBlock]bool
	m       *Sim
}

// elem of a round over the users: its uuid.
func (a *paramModel) hexOf(s *State, x *Term) (uuid *Term, key string) {
	T := s.sim.T
	k, i := resOf(x, "encoding/hex.DecodeString")
	if k == nil || i != 0 || !s.IsNil(errOf(T, k, 1)) {
		return nil, ""
	}
	return a.fieldOfEntry(s, k.args[0])
}

func (a *paramModel) fieldOfEntry(s *State, v *Term) (uuid *Term, key string) {
	var blob, kt *Term
	switch {
	case v.op == OLookup:
		blob, kt = v.args[0], v.args[1]
	case v.op == OExtract && v.args[0].op == OLookupOk:
		blob, kt = v.args[0].args[0], v.args[0].args[1]
	case (v.op == OCall || v.op == OPure) && v.name == "(blobformat.Blob).Get" && len(v.args) == 2:
		blob, kt = v.args[0], v.args[1]
	case (v.op == OCall || v.op == OPure) && v.name == "(blobformat.Blob).Name":
		return a.entryOf(s, v.args[0]), "name"
	default:
		return nil, ""
	}
	key, _ = kt.strVal()
	return a.entryOf(s, blob), key
}

// entryOf: x is the entry with that uuid.
func (a *paramModel) entryOf(s *State, x *Term) *Term {
	T := s.sim.T
	for x.op == OConvert && len(x.args) == 1 {
		x = x.args[0]
	}
	for _, n := range []string{"MustFind", "Find"} {
		if k, i := resOf(x, "(blobformat.Blobs)."+n); k != nil && i == 0 && len(k.args) > 1 {
			if s.IsNil(errOf(T, k, 1)) {
				return k.args[1]
			}
		}
	}
	if x.op == OLookup && strings.Contains(x.args[0].String(), "Snapshot") {
		return x.args[1]
	}
	if x.op == OExtract && x.idx == 0 && x.args[0].op == OLookupOk {
		return x.args[0].args[1]
	}
	return nil
}

// nameHash: x is the hash of the name of a user.
func (a *paramModel) nameHash(s *State, x *Term, in ssa.Instruction) (uuid *Term, why string) {
	if x.op == OSlice && x.args[0].op == OAllocAddr {
		if v := s.mem[x.args[0]]; v != nil {
			x = v
		}
	}
	for x.op == OSlice {
		x = x.args[0]
	}
	if (x.op != OCall && x.op != OPure) || x.name != "crypto/sha256.Sum256" {
		return nil, ""
	}
	n := bytesOf(x.args[0])
	if n == nil {
		return nil, "is not the hash of a name"
	}
	var full *Term
	switch {
	case (n.op == OCall || n.op == OPure) && n.name == "blobformat.SplitUsername":
		full = n.args[0]
	case (n.op == OCall || n.op == OPure) && (n.name == "strings.TrimPrefix" || n.name == "strings.ReplaceAll"):
		full = n.args[0]
	case n.op == OSlice:
		full = n.args[0]
	case n.op == OExtract && n.args[0].name == "strings.CutPrefix":
		full = n.args[0].args[0]
	default:
		return nil, "is not the hash of the name of a user (its entry's name without the prefix)"
	}
	if full.op == OLookup && isUsers(full.args[0]) {
		return full.args[1], ""
	}
	if full.op == OExtract && full.idx == 2 && full.args[0].name == "range" {
		return s.sim.T.Extract(full.args[0], 1, types.Typ[types.String]), ""
	}
	if u, k := a.fieldOfEntry(s, full); u != nil && k == "name" {
		return u, ""
	}
	return nil, "is not the hash of the name of the user of this round"
}

func isUsers(x *Term) bool {
	k, i := resOf(x, "(blobformat.Blobs).Users")
	return k != nil && i == 0
}

func (a *paramModel) kindOf(s *State, x *Term, in ssa.Instruction) (kind string, uuid *Term, why string) {
	if u, w := a.nameHash(s, x, in); u != nil || w != "" {
		return "Users", u, w
	}
	if u, k := a.hexOf(s, x); u != nil {
		switch k {
		case a.c.keySalt:
			return "Salts", u, ""
		case a.c.keyIV:
			return "IVs", u, ""
		case a.c.keyMKey:
			return "MKeys", u, ""
		}
		return "?", u, "is the field " + strconv.Quote(k) + " of the entry"
	}
	return "", nil, ""
}

// kindsIn: the kinds of elements the slice x may have.
func (a *paramModel) kindsIn(x *Term, kinds map[*Term]string, out map[string]bool, seen map[*Term]bool) {
	if seen[x] {
		return
	}
	seen[x] = true
	switch {
	case x.op == OAppend:
		a.kindsIn(x.args[0], kinds, out, seen)
		for _, e := range x.args[1:] {
			k := kinds[e]
			if k == "" {
				k = "?"
			}
			out[k] = true
		}
	case x == a.m.T.Nil:
	case x.op == OMake || x.op == OSlice && x.args[0].op == OMake:
		out["made"] = true
	case a.widened[x] != nil:
		for _, y := range a.widened[x] {
			a.kindsIn(y, kinds, out, seen)
		}
	default:
		out["?"] = true
	}
}

// counts: x is a number of users.
func (a *paramModel) counts(x *Term, seen map[*Term]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if n, ok := x.intVal(); ok {
		return n == 0
	}
	if x.op == OLen {
		return true // of one of the lists, which the encryption compares
	}
	if ys := a.widened[x]; ys != nil {
		grows := false
		for _, y := range ys {
			if n, ok := y.intVal(); ok && (n == 0 || n == 1) {
				continue // none, or the first
			}
			if !a.counts(y, seen) {
				return false
			}
			grows = true
		}
		return grows
	}
	l := a.m.T.linOf(x)
	if len(l.v) == 1 && l.c == 1 {
		for t, k := range l.v {
			return k == 1 && t != x && a.counts(t, seen)
		}
	}
	return false
}

func (a *paramModel) run(root *ssa.Function, ri int) {
	r, p := a.r, a.r.P
	cl := &Client{Name: "params", KeepFacts: true}
	cl.Inline = func(f *ssa.Function) (bool, bool) { return pkgOf(f) == "main", true }
	cl.Track = func(string) bool { return true }
	m := newSim(p, cl)
	a.m = m
	T := m.T
	kinds := map[*Term]string{}
	cells := []string{"Users", "Salts", "IVs", "MKeys"}
	type cand struct {
		h        *ssa.BasicBlock
		key, pos string
		msg      string
		trail    []string
	}
	var cands []cand
	var later []func()
	appendsIn := map[*ssa.BasicBlock]bool{} // loops that add records
	cl.OnWiden = func(s *State, leaf *Term, h *ssa.BasicBlock, vals ...*Term) {
		for _, v := range vals {
			dup := v == leaf
			for _, w := range a.widened[leaf] {
				dup = dup || v == w
			}
			if !dup {
				a.widened[leaf] = append(a.widened[leaf], v)
			}
		}
	}
	cl.OnAppend = func(s *State, out *Term, in ssa.Instruction) {
		if out.op != OAppend {
			return
		}
		for _, e := range out.args[1:] {
			k, uuid, why := a.kindOf(s, e, in)
			if k == "" {
				continue
			}
			if why != "" {
				r.Violate("record", "value", p.instrPos(in), "what is added to the header for a user "+why, s.Trail(12))
			}
			if o := kinds[e]; o != "" && o != k {
				k = "?"
			}
			kinds[e] = k
			if uuid == nil {
				continue
			}
			s.cl["loop"] = T.True
			if s.cl["n:"+k] != nil {
				r.Violate("record", "twice", p.instrPos(in), "more than one value of a kind is added to the header in one round", s.Trail(12))
			}
			s.cl["n:"+k] = uuid
			if al := e; k == "Users" && al.op == OSlice && al.args[0].op == OAllocAddr {
				if x, ok := al.args[0].leaf.at.(ssa.Instruction); ok && !inSomeLoop(x) && !s.top().ctx.inLoop {
					r.Violate("record", "shared", p.instrPos(in), "the hashes of all users share one array, so all of them are the last one's", s.Trail(12))
				}
			}
		}
	}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		if a.c.overUsers(s, h) || a.overList(s, h) {
			for _, k := range append(cells, "?") {
				delete(s.cl, "n:"+k)
			}
			s.cl["in"] = T.True
		}
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		if !a.c.overUsers(s, h) && !a.overList(s, h) {
			return
		}
		var missing []string
		var u *Term
		for _, k := range cells {
			x := s.cl["n:"+k]
			if x == nil {
				missing = append(missing, k)
				continue
			}
			appendsIn[h] = true
			if u != nil && u != x {
				cands = append(cands, cand{h, "mixed", p.instrPos(h.Instrs[0]), "the record made for a user has values of different entries", s.Trail(14)})
			}
			u = x
		}
		if u != nil && !a.ofRound(s, h, u) {
			cands = append(cands, cand{h, "other", p.instrPos(h.Instrs[0]), "the record made in a round is not that of the user of the round", s.Trail(14)})
		}
		r.Oblige("record", "round of "+fnName(h.Parent()))
		if len(missing) > 0 {
			cands = append(cands, cand{h, "missing", p.instrPos(h.Instrs[0]), "a round over the users can end without having added " + strings.Join(missing, ", ") + " to the header: that user could not open the file any more", s.Trail(14)})
		}
	}
	cl.OnBranch = func(s *State, c *Term, v bool, in ssa.Instruction) {
		for c.op == ONot {
			c, v = c.args[0], !v
		}
		if c.op == OExtract && c.idx == 0 && c.args[0].op == OCall && c.args[0].name == "range" && len(c.args[0].args) > 0 && a.listOfUsers(c.args[0].args[0]) {
			if v {
				delete(s.cl, "done")
			} else {
				s.cl["done"] = T.True
			}
			return
		}
		if c.op == OBin && c.tok == tokEQL && (c.args[0] == T.Zero || c.args[1] == T.Zero) {
			v = !v
		}
		if c.op == OBin && len(c.args) == 2 {
			for i := 0; i < 2; i++ {
				if l := c.args[i]; l.op == OLen && a.listOfUsers(l.args[0]) && fullLoop(in) {
					if v {
						delete(s.cl, "done")
					} else {
						s.cl["done"] = T.True
					}
				}
			}
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if !succeeds(s, res) {
			return
		}
		pos := p.instrPos(in)
		bad := func(rule, key, msg string) { r.Violate(rule, key, pos, msg, s.Trail(14)) }
		sess := a.c.session(s)
		get := func(n string) *Term {
			x := res[ri]
			if x.typ != nil {
				if _, ok := x.typ.Underlying().(*types.Pointer); ok {
					return s.loadField(x, x.typ, n)
				}
			}
			if _, ok := p.derefParam(root, ri); ok {
				return s.loadField(x, ptrTo(a.pt), n)
			}
			return s.fieldOf(x, a.pt, n)
		}
		if s.Known(T.Eq(T.Len(sess[4]), T.Zero), true) || s.Known(T.Eq(sess[4], T.Nil), true) {
			r.Oblige("master", "without users "+pos)
			if n, ok := get("NUsers").intVal(); !ok || n != 0 {
				bad("master", "count", "a session without master key saves a file with users")
			}
			for k, w := range map[string]*Term{"Keys": sess[2], "Salts": sess[3]} {
				if got := a.single(s, get(k)); got != w {
					bad("master", "own-"+k, "a file without users is not encrypted with the session's key and salt")
				}
			}
			return
		}
		r.Oblige("master", "with users "+pos)
		r.Oblige("all", pos)
		if get("Master") != sess[4] {
			bad("master", "master", "a file with users is not encrypted with the session's master key")
		}
		if get("IVM") != sess[5] {
			bad("master", "ivm", "a file with users is not encrypted with the iv of the session's master key")
		}
		if s.cl["done"] == nil {
			bad("all", "left", "parameters for a file with users can be made without going through all users of the store")
		}
		vals := map[string]*Term{"NUsers": get("NUsers")}
		for _, k := range cells {
			vals[k] = get(k)
		}
		// judged once it is known what the lists may grow by
		later = append(later, func() {
			some := false
			for _, k := range cells {
				ks := map[string]bool{}
				a.kindsIn(vals[k], kinds, ks, map[*Term]bool{})
				for x := range ks {
					some = some || x == k
					if x != k && x != "made" {
						bad("record", "field-"+k, "the "+k+" of the header are not those of the entries of the users")
					}
				}
			}
			if n, ok := vals["NUsers"].intVal(); ok && n == 0 && some || !a.counts(vals["NUsers"], map[*Term]bool{}) {
				bad("record", "count", "the number of users in the header is not the number of records in it")
			}
		})
	}
	m.Run(root, func(s *State, ps []*Term) {
		if !a.c.sessionOf(s, root, ps) {
			r.Violate("anchor", fnName(root), p.pos(root.Pos()), "the session is not reachable from the parameters of "+fnName(root), nil)
			return
		}
		a.c.init = a.c.session(s)
	})
	for _, f := range later {
		f()
	}
	for _, c := range cands {
		if appendsIn[c.h] {
			r.Violate("record", c.key, c.pos, c.msg, c.trail)
		}
	}
	r.absorb(m, fnName(root))
}

func (p *Prog) derefParam(f *ssa.Function, i int) (types.Type, bool) {
	pt, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return pt.Elem(), true
}

// single: x is a list with one element.
func (a *paramModel) single(s *State, x *Term) *Term {
	T := s.sim.T
	if x.op == OAppend && len(x.args) == 2 && (x.args[0] == T.Nil || x.args[0].op == OMake) {
		return x.args[1]
	}
	if es := s.elems(x); len(es) == 1 {
		return es[0]
	}
	return nil
}

// listOfUsers: x holds all users of the store.
func (a *paramModel) listOfUsers(x *Term) bool {
	if isUsers(x) {
		return true
	}
	if k, _ := resOf(x, "(blobformat.SearchResults).UUIDs"); k != nil && isUsers(k.args[0]) {
		return true
	}
	if k, _ := resOf(x, "golang.org/x/exp/maps.Keys"); k != nil && len(k.args) > 0 && isUsers(k.args[0]) {
		return true
	}
	return false
}

// overList: the loop goes over a list of the users.
func (a *paramModel) overList(s *State, h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if b, ok := in.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if x := s.top().env[o]; x != nil && x.op == OLen && a.listOfUsers(x.args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// ofRound: uuid is the element the loop is at.
func (a *paramModel) ofRound(s *State, h *ssa.BasicBlock, uuid *Term) bool {
	if uuid.op == OExtract && uuid.idx == 1 && uuid.args[0].name == "range" {
		return a.listOfUsers(uuid.args[0].args[0])
	}
	return uuid.any(func(x *Term) bool { return x.op == OIndexAddr && a.listOfUsers(x.args[0]) })
}

func inSomeLoop(in ssa.Instruction) bool {
	b := in.Block()
	for _, h := range b.Parent().Blocks {
		if len(loopBody(h)) > 0 && loopBody(h)[b] && isLoopHead(h) {
			return true
		}
	}
	return false
}

func isLoopHead(h *ssa.BasicBlock) bool {
	for _, q := range h.Preds {
		if h.Dominates(q) {
			return true
		}
	}
	return false
}

// encryptions: where contents are encrypted, with what.
func encryptions(r *Run, makers []*ssa.Function) {
	p := r.P
	ok := map[*ssa.Function]bool{}
	for _, f := range makers {
		ok[f] = true
	}
	for _, f := range p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(ssa.CallInstruction)
				if !isC || calleeName(c.Common()) != "crypt.Encrypt" || len(c.Common().Args) != 3 {
					continue
				}
				pos := p.instrPos(in)
				r.Oblige("given", pos)
				for i, want := range []string{1: "params", 2: "data"} {
					if want == "" {
						continue
					}
					src := p.sources(c.Common().Args[i], prov{leaf: func(v ssa.Value) bool { return resultOf(v) != nil && (want == "data" || ok[resultOf(v)]) }})
					for _, v := range src {
						g := resultOf(v)
						good := g != nil && (want == "params" && ok[g] || want == "data" && fnName(g) == "(blobformat.Blobs).Save")
						if k, isK := v.(*ssa.Const); isK && k.Value == nil {
							good = true // what comes with an error
						}
						if !good && want == "data" && g != nil && fnName(g) == "(*txlogs.DB).Save" {
							good = true
						}
						if !good {
							r.Violate("given", fnName(f)+"|"+want, pos, "what is encrypted is not the saved store with parameters made from its users: "+want+" may come from "+p.instrPos2(v), nil)
						}
					}
				}
			}
		}
	}
}

func resultOf(v ssa.Value) *ssa.Function {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	if c, ok := v.(*ssa.Call); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

func (p *Prog) instrPos2(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok {
		return p.instrPos(in)
	}
	return p.pos(v.Pos())
}

// usersOf: the users are the entries named so.
func usersOf(r *Run, root *ssa.Function) {
	p := r.P
	cl := &Client{Name: "users", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		return pkgOf(f) == "blobformat" && fnName(f) != "blobformat.IsUserEntry" && fnName(f) != "(blobformat.Blob).Name", true
	}
	m := newSim(p, cl)
	T := m.T
	_ = T
	isPred := func(x *Term) bool {
		return (x.op == OCall || x.op == OPure) && (x.name == "blobformat.IsUserEntry" || x.name == "strings.HasPrefix")
	}
	cl.OnBranch = func(s *State, c *Term, v bool, in ssa.Instruction) {
		for c.op == ONot {
			c, v = c.args[0], !v
		}
		if c.op == OExtract && c.idx == 0 && c.args[0].op == OCall && c.args[0].name == "range" {
			if v {
				s.cl["iter"] = c.args[0]
				delete(s.cl, "put")
				delete(s.cl, "is")
				delete(s.cl, "not")
				delete(s.cl, "done")
			} else {
				delete(s.cl, "iter")
				s.cl["done"] = T.True
			}
			return
		}
		if it := s.cl["iter"]; it != nil && isPred(c) && c.args[0].contains(it) {
			if v {
				s.cl["is"] = c
			} else {
				s.cl["not"] = c
			}
		}
	}
	cl.OnMapUpdate = func(s *State, mp, k, v *Term, in ssa.Instruction) {
		r.Oblige("users", "put "+p.instrPos(in))
		it := s.cl["iter"]
		if it == nil || k != T.Extract(it, 1, types.Typ[types.String]) {
			r.Violate("users", "key", p.instrPos(in), "a user is not filed under the identifier of its entry", s.Trail(10))
			return
		}
		if s.cl["is"] == nil {
			r.Violate("users", "other", p.instrPos(in), "an entry that is not a user can be counted as one", s.Trail(10))
		}
		s.cl["put"] = v
	}
	end := func(s *State, in ssa.Instruction) {
		if s.cl["iter"] != nil && s.cl["put"] == nil && s.cl["not"] == nil {
			r.Violate("users", "left", p.instrPos(in), "an entry can be passed over although it may be a user", s.Trail(10))
		}
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) { end(s, h.Instrs[0]) }
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if !succeeds(s, res) {
			return
		}
		r.Oblige("users", p.instrPos(in))
		if s.cl["done"] == nil {
			r.Violate("users", "left", p.instrPos(in), "the users can be returned before all entries were looked at", s.Trail(10))
		}
	}
	m.Run(root, func(s *State, ps []*Term) {})
	r.absorb(m, fnName(root))
	if f := r.Anchor("blobformat.IsUserEntry"); f != nil {
		userEntry(r, f)
	}
}

// userEntry: what is called the entry of a user is named like one.
func userEntry(r *Run, root *ssa.Function) {
	p := r.P
	prefix := ""
	if k, ok := p.ByPkg["blobformat"].Pkg.Scope().Lookup("userPrefix").(*types.Const); ok {
		prefix = strings.Trim(k.Val().ExactString(), `"`)
	}
	cl := &Client{Name: "userEntry", KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) { return pkgOf(f) == "blobformat", true }
	m := newSim(p, cl)
	T := m.T
	var x *Term
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		r.Oblige("users", p.instrPos(in))
		named := func(c *Term) bool {
			if (c.op == OCall || c.op == OPure) && c.name == "strings.HasPrefix" && c.args[0] == x {
				k, ok := c.args[1].strVal()
				return ok && (k == prefix || prefix == "")
			}
			if c.op == OBin && c.tok == tokEQL { // name[:n] == prefix
				for i := 0; i < 2; i++ {
					if k, ok := c.args[i].strVal(); ok && k == prefix && c.args[1-i].op == OSlice && c.args[1-i].args[0] == x && s.ProveLE(T.Len(c.args[1-i]), T.Int(int64(len(k)))) {
						return true
					}
				}
			}
			return c.op == OExtract && c.args[0].name == "strings.CutPrefix"
		}
		v := res[0]
		if v == T.False || named(v) {
			return
		}
		if v == T.True {
			for f, val := range s.facts {
				if val && named(f) {
					return
				}
			}
		}
		r.Violate("users", "named", p.instrPos(in), "an entry can be taken for a user's although its name does not begin like one", s.Trail(8))
	}
	m.Run(root, func(s *State, ps []*Term) { x = ps[0] })
	r.absorb(m, fnName(root))
}
