package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05", Title: "credentials always change as a whole", Run: runC05,
		Explanation: "Every command that can change credentials, and opening a file, is executed abstractly; at every way out that can report success the session's and the entries' credentials are compared by provenance: which derivation, which wrapping, which user."})
}

var credFields = []string{"user", "pass", "key", "salt", "master", "ivm"}

type credModel struct {
	r       *Run
	rule    string
	keep    map[string]bool // if set, the only findings reported
	uiT     types.Type
	ui      *Term // pointer to the session
	init    []*Term
	widened map[int]*ssa.BasicBlock
	opaque  map[*ssa.Function]bool
	keySalt string
	keyIV   string
	keyMKey string
}

func newCredModel(r *Run) *credModel {
	c := &credModel{r: r, uiT: r.P.typ("main.uiContext"), widened: map[int]*ssa.BasicBlock{}, opaque: map[*ssa.Function]bool{}}
	if c.uiT == nil {
		r.Violate("anchor", "uiContext", "-", "the session type is not in the source", nil)
		return nil
	}
	for _, f := range credFields {
		if fieldIndex(c.uiT, f) < 0 {
			r.Violate("anchor", "uiContext."+f, "-", "the session no longer has the field "+f, nil)
			return nil
		}
	}
	get := func(n string) string {
		if k, ok := r.P.ByPkg["blobformat"].Pkg.Scope().Lookup(n).(*types.Const); ok {
			return strings.Trim(k.Val().ExactString(), `"`)
		}
		r.Violate("anchor", n, "-", "the constant "+n+" is not in the source", nil)
		return ""
	}
	c.keySalt, c.keyIV, c.keyMKey = get("KeySalt"), get("KeyIV"), get("KeyMKey")
	for _, f := range r.P.modFuncs() {
		if c.credResult(f) >= 0 {
			c.opaque[f] = true
		}
	}
	return c
}

// credStruct maps the six credentials to fields of a struct type, nil if it
// lacks one.
func credStruct(T types.Type) []int {
	st, ok := structUnder(T)
	if !ok {
		return nil
	}
	var out []int
	for _, n := range credFields {
		at := -1
		for i := 0; i < st.NumFields(); i++ {
			if strings.EqualFold(st.Field(i).Name(), n) {
				at = i
			}
		}
		if at < 0 {
			return nil
		}
		out = append(out, at)
	}
	return out
}

// credResult: f returns a struct with all six credentials.
func (c *credModel) credResult(f *ssa.Function) int {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), c.uiT) {
			continue
		}
		if credStruct(rs.At(i).Type()) != nil {
			return i
		}
	}
	return -1
}

func (c *credModel) isCredKey(k string) bool {
	p := trimPkgType(c.uiT)
	for _, f := range credFields {
		if k == p+"."+f {
			return true
		}
	}
	return false
}

func trimPkgType(T types.Type) string { return typeKey(T) }

// reachesAny: f statically reaches a call of one of the names.
func (p *Prog) reachesAny(f *ssa.Function, names ...string) bool {
	for g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					for _, w := range names {
						if n == w {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// storesCreds: f itself assigns a credential of the session.
func (c *credModel) storesCreds(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.uiT) {
					for _, n := range credFields {
						if fa.Field == fieldIndex(c.uiT, n) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *credModel) reachesCreds(f *ssa.Function) bool {
	for g := range c.r.P.reach(f) {
		if c.storesCreds(g) {
			return true
		}
	}
	return c.r.P.reachesAny(f, "crypt.EncryptMasterKey")
}

func (c *credModel) session(s *State) []*Term {
	var out []*Term
	for _, n := range credFields {
		out = append(out, s.loadField(c.ui, ptrTo(c.uiT), n))
	}
	return out
}

func (c *credModel) bad(s *State, in ssa.Instruction, key, msg string) {
	if c.keep != nil && !c.keep[key] {
		return
	}
	c.r.Violate(c.rule, key, c.r.P.instrPos(in), msg, s.Trail(14))
}

// client sets up the simulation shared by both checks.
func (c *credModel) client(name string, root *ssa.Function) *Client {
	cl := &Client{Name: name, KeepFacts: true, DropFrames: true}
	memo := map[*ssa.Function]bool{}
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if r, ok := memo[f]; ok {
			return r, true
		}
		r := pkgOf(f) == "main" && !c.opaque[f] && (c.reachesCreds(f) || c.r.P.reachesAny(f, "crypt.DeriveKey", "crypt.NewMasterKey", "crypt.Decrypt", "(*txlogs.DB).Set", "(*txlogs.DB).Delete",
			"(blobformat.Blobs).FindUser", "(blobformat.Blobs).MustFindUser", "(blobformat.Blobs).Users"))
		if pkgOf(f) == "main" && !c.opaque[f] && !r {
			// small local helpers: pure string or value helpers without loops
			r = len(f.Blocks) <= 3 && !c.r.P.reachesAny(f, "(main.LineEditor).Line", "(main.LineEditor).LineHidden")
		}
		memo[f] = r
		return r, true
	}
	cl.Track = func(string) bool { return true }
	return cl
}

// sessionOf finds the session among a root's parameters.
func (c *credModel) sessionOf(s *State, root *ssa.Function, ps []*Term) bool {
	for i, p := range root.Params {
		if types.Identical(p.Type(), ptrTo(c.uiT)) {
			c.ui = ps[i]
			return true
		}
		if st, ok := structUnder(deref(p.Type())); ok {
			for j := 0; j < st.NumFields(); j++ {
				if types.Identical(st.Field(j).Type(), ptrTo(c.uiT)) {
					c.ui = s.loadField(ps[i], p.Type(), st.Field(j).Name())
					return true
				}
			}
		}
	}
	return false
}

type credRec struct{ uuid, key, val *Term }

func addTuple(s *State, k string, t *Term) {
	var l []*Term
	if x := s.cl[k]; x != nil {
		l = append(l, x.args...)
	}
	for _, x := range l {
		if x == t {
			return
		}
	}
	l = append(l, t)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	s.cl[k] = s.sim.T.Tuple(l...)
}

// names returns the user names a uuid stands for: the argument of the lookup
// that gave it, or the range variables of a loop over the users.
func userOf(uuid *Term) (name *Term, how string) {
	for _, n := range []string{"FindUser", "MustFindUser"} {
		if k, _ := resOf(uuid, "(blobformat.Blobs)."+n); k != nil && len(k.args) > 1 {
			return k.args[1], "find"
		}
	}
	if k, _ := resOf(uuid, "(blobformat.Blobs).NewUser"); k != nil && len(k.args) > 1 {
		return k.args[1], "new"
	}
	return nil, "range"
}

// sameUser decides whether uuid is the entry of the session's user.
func (c *credModel) sameUser(s *State, uuid, user *Term) (same, differs bool) {
	T := s.sim.T
	name, how := userOf(uuid)
	if how != "range" {
		if name == user {
			return true, false
		}
		eq := T.Eq(name, user)
		return s.Known(eq, true), s.Known(eq, false)
	}
	root := uuid
	for root.op == OExtract || root.op == OLoad || root.op == OIndexAddr {
		root = root.args[0]
	}
	for f, v := range s.facts {
		if f.op != OBin || len(f.args) != 2 || f.tok != tokEQL {
			continue
		}
		for i := 0; i < 2; i++ {
			full := f.args[1-i].op == OExtract || f.args[1-i].op == OLookup || f.args[1-i].op == OField
			if f.args[i].contains(user) && full == (f.args[i] != user) && (f.args[1-i].contains(root) || f.args[1-i].contains(uuid)) {
				if v {
					same = true
				} else {
					differs = true
				}
			}
		}
	}
	return
}

// checkSets verifies the credentials recorded for entries since the start of
// the path (or of the loop iteration): three values, one derivation, one
// wrapping. It returns the keys that were used, by uuid.
func (c *credModel) checkSets(s *State, in ssa.Instruction, sess []*Term) map[*Term]*Term {
	T := s.sim.T
	byU := map[*Term]map[string]*Term{}
	var order []*Term
	if x := s.cl["sets"]; x != nil {
		for _, t := range x.args {
			u, k := t.args[0], t.args[1]
			if byU[u] == nil {
				byU[u] = map[string]*Term{}
				order = append(order, u)
			}
			ks, _ := k.strVal()
			if old := byU[u][ks]; old != nil && old != t.args[2] {
				c.bad(s, in, "twice|"+ks, "a user entry is given two different values for "+ks)
			}
			byU[u][ks] = t.args[2]
		}
	}
	out := map[*Term]*Term{}
	for _, u := range order {
		v := byU[u]
		salt, iv, mkey := unhex(v[c.keySalt]), unhex(v[c.keyIV]), unhex(v[c.keyMKey])
		if salt == nil || iv == nil || mkey == nil {
			c.bad(s, in, "partial", "a user entry can be given only some of salt, iv and wrapped master key (or a value that is not hex encoded)")
			continue
		}
		e, i := resOf(mkey, "crypt.EncryptMasterKey")
		e2, i2 := resOf(iv, "crypt.EncryptMasterKey")
		if e == nil || e != e2 || i != 0 || i2 != 1 || len(e.args) != 3 {
			c.bad(s, in, "wrap", "the wrapped master key and the iv recorded for a user do not come from one wrapping of the master key")
			continue
		}
		key := e.args[1]
		d, di := resOf(key, "crypt.DeriveKey")
		d2, si := resOf(salt, "crypt.DeriveKey")
		switch {
		case d != nil && d == d2 && di == 0 && si == 1:
		case key == c.init[2] && salt == c.init[3]:
		default:
			c.bad(s, in, "salt", "the salt recorded for a user is not the one the key wrapping the master key was derived with")
			continue
		}
		if d != nil {
			if p := bytesOf(d.args[1]); p == nil || !s.Known(T.Eq(T.Len(p), T.Zero), false) && !s.Known(T.Eq(p, T.Str("")), false) && !isGenerated(p) {
				c.bad(s, in, "empty", "a user can be given credentials derived from an empty passphrase")
			}
		}
		if !s.Known(T.Eq(errOf(T, e, 2), T.Nil), true) {
			c.bad(s, in, "wrap-error", "the result of wrapping the master key is recorded although it may have failed")
		}
		if d != nil && !s.Known(T.Eq(errOf(T, d, 2), T.Nil), true) {
			c.bad(s, in, "derive-error", "derived credentials are recorded although deriving them may have failed")
		}
		addTuple(s, "ms", e.args[2])
		out[u] = key
		c.r.Oblige(c.rule, "entry credentials "+c.r.P.instrPos(in))
	}
	return out
}

func isGenerated(p *Term) bool {
	k, i := resOf(p, "main.genPassword")
	return k != nil && i == 0
}

func errOf(T *Terms, call *Term, i int) *Term { return T.Extract(call, i, errType) }

func unhex(x *Term) *Term {
	if x == nil || x.op != OPure || x.name != "encoding/hex.EncodeToString" {
		return nil
	}
	return x.args[0]
}

// checkSession verifies that the session's credentials now (cur) are the old
// ones, or changed together from one source. It returns whether the login
// credentials changed, and the new key.
func (c *credModel) checkSession(s *State, in ssa.Instruction, old, cur []*Term) (changed bool, whole bool) {
	T := s.sim.T
	same := func(is ...int) bool {
		for _, i := range is {
			if old[i] != cur[i] {
				return false
			}
		}
		return true
	}
	if same(0, 1, 2, 3, 4, 5) {
		return false, false
	}
	// one struct that carries all six
	if x := cur[2]; x.op == OField {
		src := x.args[0]
		if fs := credStruct(src.typ); fs != nil {
			for i := range credFields {
				if cur[i].op != OField || cur[i].args[0] != src || cur[i].idx != fs[i] {
					c.bad(s, in, "mixed", "the session takes over some credentials of a merge but keeps or mixes others: "+credFields[i])
				}
			}
			return true, true
		}
	}
	// a decrypted file
	for _, i := range []int{2, 3, 4, 5} {
		if d := decryptOf(cur[i]); d != nil && !same(i) {
			c.checkDecrypted(s, in, d, cur, T.Extract(d, 1, nil))
			return true, true
		}
	}
	if !same(1, 2, 3) {
		changed = true
		if x := s.cl["okSess"]; c.sameWiden(cur[1], cur[2], cur[3]) || x != nil && x.args[0] == cur[1] && x.args[1] == cur[2] && x.args[2] == cur[3] {
			// changed in a loop, checked there
			changed = false
		} else {
			d, i := resOf(cur[2], "crypt.DeriveKey")
			d2, i2 := resOf(cur[3], "crypt.DeriveKey")
			if d == nil || d != d2 || i != 0 || i2 != 1 {
				c.bad(s, in, "session-key-salt", "the session's key and salt can come from different derivations")
			} else if p := bytesOf(d.args[1]); p == nil || p != cur[1] {
				c.bad(s, in, "session-pass", "the passphrase the session remembers can differ from the one its key was derived from")
			} else if !s.Known(T.Eq(errOf(T, d, 2), T.Nil), true) {
				c.bad(s, in, "session-derive-error", "the session takes over derived credentials although deriving them may have failed")
			}
		}
	}
	if !same(4, 5) {
		m, i := resOf(cur[4], "crypt.NewMasterKey")
		m2, i2 := resOf(cur[5], "crypt.NewMasterKey")
		cleared := cur[4] != old[4] && s.Known(T.Eq(T.Len(cur[4]), T.Zero), true) && s.Known(T.Eq(T.Len(cur[5]), T.Zero), true)
		switch {
		case cleared:
			c.checkCleared(s, in)
		case m != nil && m == m2 && i == 0 && i2 == 1:
			if !s.Known(T.Eq(errOf(T, m, 2), T.Nil), true) {
				c.bad(s, in, "master-error", "a new master key is taken over although making it may have failed")
			}
		default:
			c.bad(s, in, "master-ivm", "the session's master key and its iv can come from different sources")
		}
	}
	return changed, false
}

// checkCleared: the file stops having users only when the entry of its last
// user, who is the session's, is deleted.
func (c *credModel) checkCleared(s *State, in ssa.Instruction) {
	T := s.sim.T
	del := s.cl["deleted"]
	if del == nil {
		c.bad(s, in, "cleared", "the master key is dropped although no entry is deleted")
		return
	}
	name := func(x *Term) bool {
		if k, _ := resOf(del, "(blobformat.Blobs).FindByName"); k != nil && len(k.args) > 1 {
			return x.contains(k.args[1])
		}
		n, _ := userOf(del)
		return n != nil && x.contains(n)
	}
	self, last := false, false
	for f, v := range s.facts {
		if f.op != OBin || len(f.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if v && f.tok == tokEQL && b == c.init[0] && name(a) {
				if k, _ := resOf(a, "blobformat.SplitUsername"); k != nil {
					self = true
				}
			}
		}
		if x := usersLen(f); x != nil && (s.ProveLE(x, T.One)) {
			last = true
		}
	}
	if k, how := userOf(del); how == "find" && k == c.init[0] {
		self = true
	}
	if !self || !last {
		c.bad(s, in, "cleared", "the master key can be dropped although the deleted entry is not the one of the session's user, or other users remain")
	}
	c.r.Oblige(c.rule, "file without users "+c.r.P.instrPos(in))
}

// deletedOther: the deleted entry is known not to be the session's user's.
func (c *credModel) deletedOther(s *State, del *Term) bool {
	T := s.sim.T
	if s.Known(T.Eq(T.Len(c.init[4]), T.Zero), true) {
		return true
	}
	var name *Term
	if k, _ := resOf(del, "(blobformat.Blobs).FindByName"); k != nil && len(k.args) > 1 {
		name = k.args[1]
	} else if n, _ := userOf(del); n != nil {
		name = n
	}
	about := func(x *Term) bool { return x.contains(del) || name != nil && x.contains(name) }
	for f, v := range s.facts {
		if (f.op == OPure || f.op == OCall) && f.name == "blobformat.IsUserEntry" && !v && about(f) {
			return true
		}
		if f.op != OBin || len(f.args) != 2 || f.tok != tokEQL {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if !v && about(a) && b.contains(c.init[0]) {
				return true
			}
			empty := a.op == OLen && isZeroLen(b) || isStr(b, "")
			if v && empty && about(a) && a.any(func(x *Term) bool { return x.name == "blobformat.SplitUsername" }) {
				return true
			}
		}
	}
	return false
}

func isZeroLen(x *Term) bool { n, ok := x.intVal(); return ok && n == 0 }

// usersLen finds the number of users of the file in a condition.
func usersLen(f *Term) *Term {
	var out *Term
	f.any(func(x *Term) bool {
		if x.op == OLen {
			if k, i := resOf(x.args[0], "(blobformat.Blobs).Users"); k != nil && i == 0 {
				out = x
				return true
			}
		}
		return false
	})
	return out
}

func (c *credModel) sameWiden(xs ...*Term) bool {
	h := c.widened[xs[0].id]
	for _, x := range xs {
		if h == nil || c.widened[x.id] != h {
			return false
		}
	}
	return true
}

// decryptOf: x comes out of the parameters a Decrypt call returned.
func decryptOf(x *Term) *Term {
	r := baseOf(x)
	if r != nil && r.op == OCall && r.name == "crypt.Decrypt" {
		return r
	}
	return nil
}

// paramTerms gives key, salt, master and ivm of the selected user of params.
func (c *credModel) paramTerms(s *State, params *Term) []*Term {
	T := s.sim.T
	pt := c.r.P.typ("crypt.Params")
	f := func(n string) *Term { return s.fieldOf(params, pt, n) }
	bs := types.NewSlice(types.Typ[types.Byte])
	at := func(n string) *Term {
		return s.Load(T.IndexAddr(f(n), f("User"), ptrTo(bs)), bs)
	}
	return []*Term{at("Keys"), at("Salts"), f("Master"), f("IVM")}
}

func (c *credModel) checkDecrypted(s *State, in ssa.Instruction, d *Term, cur []*Term, _ *Term) {
	T := s.sim.T
	if len(d.args) != 5 {
		c.bad(s, in, "decrypt-shape", "Decrypt no longer takes user, passphrase, key, salt and file")
		return
	}
	params := s.sim.expand(T.Extract(d, 1, c.r.P.typ("crypt.Params")), c.r.P.typ("crypt.Params"))
	want := c.paramTerms(s, params)
	for i, w := range want {
		if cur[2+i] != w {
			c.bad(s, in, "decrypt-"+credFields[2+i], "after opening a file the session's "+credFields[2+i]+" is not the one of the user the file was opened as")
		}
	}
	for i := 0; i < 2; i++ {
		if b := bytesOf(d.args[i]); b == nil || b != cur[i] {
			c.bad(s, in, "decrypt-"+credFields[i], "after opening a file the session's "+credFields[i]+" is not the one it was opened with")
		}
	}
	if !s.Known(T.Eq(T.Extract(d, 3, errType), T.Nil), true) {
		c.bad(s, in, "decrypt-error", "credentials are taken over although opening the file may have failed")
	}
	c.r.Oblige(c.rule, "opened file "+c.r.P.instrPos(in))
}

func succeeds(s *State, res []*Term) bool {
	if len(res) == 0 {
		return true
	}
	last := res[len(res)-1]
	if !isErrorType(last.typ) && last.op != ONil && last.op != OSentinel {
		if last.op != OIface && last.op != OCall && last.op != OExtract {
			return true
		}
	}
	return !s.NonNil(last) && last.op != OSentinel
}

func isErrorType(T types.Type) bool { return T != nil && types.Identical(T, errType) }

func runC05(r *Run) {
	r.Rule("entry: a user entry is given salt, iv and wrapped master key together: the key that wraps was derived with that salt (from a passphrase that is not empty) or is the session's, and what it wraps is the master key the session ends up with")
	r.Rule("session: passphrase, key and salt of the session change together and come from one derivation of that passphrase; master key and its iv change together; opening a file takes all of them from that file")
	r.Rule("user: in a file with users, the session's login credentials change exactly if the entry that is changed is the one of the session's user")
	r.Rule("all-users: a new master key is wrapped for every user of the file before it is taken over")
	c := newCredModel(r)
	if c == nil {
		return
	}
	c.rule = "credentials"
	roots := map[*ssa.Function]string{}
	for _, cmd := range r.P.commands() {
		if c.reachesCreds(cmd.run) || r.P.reachesAny(cmd.run, "(*txlogs.DB).Delete") {
			roots[cmd.run] = cmd.name
		}
	}
	for _, f := range r.P.mainCallees() {
		if c.reachesCreds(f) {
			roots[f] = f.Name()
		}
	}
	var fs []*ssa.Function
	for f := range roots {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return roots[fs[i]] < roots[fs[j]] })
	for _, f := range fs {
		if r.P.reachesAny(f, "txlogs.Merge") {
			continue // C11
		}
		c.run(f, roots[f])
	}
	r.Need("credentials", 8)
	r.Count("credential_commands", len(fs))
	if len(fs) < 6 {
		r.Violate("anchor", "commands", "-", "the commands that change credentials were not found", nil)
	}
}

func (c *credModel) run(root *ssa.Function, name string) {
	r := c.r
	cl := c.client(name, root)
	m := newSim(r.P, cl)
	T := m.T
	cl.OnCall = func(ev *CallEv) {
		if ev.Name == "(*txlogs.DB).Set" && len(ev.Args) == 4 {
			k, ok := ev.Args[2].strVal()
			if !ok {
				return
			}
			if k == c.keySalt || k == c.keyIV || k == c.keyMKey {
				addTuple(ev.S, "sets", T.Tuple(ev.Args[1], ev.Args[2], ev.Args[3]))
			}
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		if ev.Name == "crypt.DeriveKey" && res.op == OTuple {
			ev.S.cl["derived"] = baseOf(res.args[0])
		}
		if ev.Name == "(*txlogs.DB).Delete" && len(ev.Args) > 1 {
			ev.S.cl["deleted"] = ev.Args[1]
		}
	}
	cl.OnWiden = func(s *State, leaf *Term, h *ssa.BasicBlock, vals ...*Term) { c.widened[leaf.id] = h }
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		if !c.encLoop(s, h) {
			return
		}
		cur := c.session(s)
		if cur[4] != c.init[4] && c.overUsers(s, h) && !s.Known(T.Eq(T.Len(c.init[4]), T.Zero), true) {
			c.bad(s, h.Instrs[0], "early", "a new master key is taken over before it is wrapped for every user")
		}
		s.cl["head"] = T.Tuple(cur...)
		delete(s.cl, "sets")
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		if !c.encLoop(s, h) || s.cl["head"] == nil {
			return
		}
		in := h.Instrs[0]
		old, cur := s.cl["head"].args, c.session(s)
		keys := c.checkSets(s, in, cur)
		if len(keys) == 0 {
			s.cl["skipped"] = T.True
		}
		if c.overUsers(s, h) {
			s.cl["looped"] = T.True
		}
		c.link(s, in, old, cur, keys)
		delete(s.cl, "sets")
		if len(keys) > 0 {
			delete(s.cl, "derived")
		}
		s.cl["okSess"] = T.Tuple(cur[1], cur[2], cur[3])
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if !succeeds(s, res) {
			return
		}
		r.Oblige(c.rule, name+" returns "+r.P.instrPos(in))
		cur := c.session(s)
		keys := c.checkSets(s, in, cur)
		c.link(s, in, c.init, cur, keys)
		if d := s.cl["derived"]; d != nil && len(keys) == 0 && s.Known(T.Eq(errOf(T, d, 2), T.Nil), true) {
			if k, _ := resOf(cur[2], "crypt.DeriveKey"); k != d {
				c.bad(s, in, "unused", "success can be reported although the credentials that were derived are used for nobody")
			}
		}
		if del := s.cl["deleted"]; del != nil && !c.deletedOther(s, del) && !s.Known(T.Eq(T.Len(cur[4]), T.Zero), true) {
			c.bad(s, in, "no-user", "the entry of the session's own user can be deleted while the file stays one with users")
		}
		if x := s.cl["ms"]; x != nil {
			for _, mk := range x.args {
				if mk != cur[4] {
					c.bad(s, in, "old-master", "a user's entry wraps a master key that is not the one the file will be encrypted with")
				}
			}
		}
		if cur[4] != c.init[4] && decryptOf(cur[4]) == nil && s.Known(T.Eq(T.Len(cur[4]), T.Zero), true) == false {
			first := s.Known(T.Eq(T.Len(c.init[4]), T.Zero), true)
			if first {
				ok := len(keys) == 1
				for u, k := range keys {
					if n, how := userOf(u); how != "new" || n != cur[0] || k != cur[2] {
						ok = false
					}
				}
				if !ok {
					c.bad(s, in, "first-user", "a file becomes a file with users although no entry for the session's user wraps the new master key with the session's key")
				}
			} else if s.cl["looped"] == nil || s.cl["skipped"] != nil {
				if s.cl["looped"] != nil || !c.noUsers(s) {
					c.bad(s, in, "not-all", "a new master key is taken over although some user's entry may still wrap the old one")
				}
			}
		}
	}
	m.Run(root, func(s *State, ps []*Term) {
		if !c.sessionOf(s, root, ps) {
			r.Violate("anchor", name, r.P.pos(root.Pos()), "the session is not reachable from the parameters of "+fnName(root), nil)
			return
		}
		c.init = c.session(s)
	})
	r.absorb(m, name)
}

// link ties the session's login credentials to the entries changed.
func (c *credModel) link(s *State, in ssa.Instruction, old, cur []*Term, keys map[*Term]*Term) {
	T := s.sim.T
	changed, whole := c.checkSession(s, in, old, cur)
	if whole {
		return
	}
	first := s.Known(T.Eq(T.Len(c.init[4]), T.Zero), true)
	user := cur[0]
	if changed && len(keys) == 0 {
		if !s.Known(T.Eq(T.Len(cur[4]), T.Zero), true) && cur[4].op != OZero && cur[4].op != ONil && !c.created(s) {
			c.bad(s, in, "session-only", "the session's key changes in a file with users without its user's entry changing")
		}
	}
	for u, k := range keys {
		same, differs := c.sameUser(s, u, user)
		_, how := userOf(u)
		if how == "new" {
			if !first && changed {
				c.bad(s, in, "new-user-session", "adding a user changes the session's own credentials")
			}
			continue
		}
		switch {
		case changed && (!same || k != cur[2]):
			c.bad(s, in, "wrong-user", "the session's key changes although the entry that is changed may belong to another user")
		case !changed && !differs:
			c.bad(s, in, "session-stale", "the entry of the session's own user may change while the session keeps the old credentials")
		}
	}
}

// created: the file is being created by this session.
func (c *credModel) created(s *State) bool {
	for f, v := range s.facts {
		if v && f.op == OPure && f.name == "os.IsNotExist" {
			return true
		}
	}
	v := s.loadField(c.ui, ptrTo(c.uiT), "created")
	return v != nil && s.Known(v, true)
}

// encLoop: the loop headed by h wraps master keys.
func (c *credModel) encLoop(s *State, h *ssa.BasicBlock) bool {
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if calleeName(ci.Common()) == "crypt.EncryptMasterKey" {
					return true
				}
				if f := ci.Common().StaticCallee(); f != nil && c.r.P.inModule[f] && pkgOf(f) == "main" && c.r.P.reachesAny(f, "crypt.EncryptMasterKey") {
					return true
				}
			}
		}
	}
	return false
}

// overUsers: the loop goes over all users of the file.
func (c *credModel) overUsers(s *State, h *ssa.BasicBlock) bool {
	isUsers := func(t *Term) bool {
		return t != nil && t.any(func(x *Term) bool { return x.op == OCall && x.name == "(blobformat.Blobs).Users" })
	}
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if b == h && isUsers(s.top().env[x.Iter]) {
					return true
				}
			case *ssa.BinOp:
				if b == h {
					for _, o := range []ssa.Value{x.X, x.Y} {
						if isUsers(s.top().env[o]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// noUsers: the loop over the users ended without an iteration.
func (c *credModel) noUsers(s *State) bool { return s.cl["head"] != nil }
