package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Title: "a sync takes over credentials whole or not at all", Run: runC11,
		Explanation: "Synchronizing, merging remotes and opening a remote are executed abstractly; the six credentials of the session must come together from one source, and which side wins is decided on the outcome of the merges before."})
}

type adoptModel struct {
	*credModel
	partsT types.Type // what is known of one remote
	resT   types.Type // result of merging the remotes
	txs    types.Type
	merger map[*ssa.Function]bool // functions that merge two logs
	yesno  map[string]bool
}

func runC11(r *Run) {
	r.Rule("session: user, passphrase, key, salt, master key and its iv of the session are all kept, or all six are taken from the result of one merge, together with the log of that merge, and only if the merge succeeded")
	r.Rule("winner: for each remote the running result keeps all six credentials or takes all six from that remote: of two files without users the one changed last (or as the user says if they tie), of a file with users and one without the kind that the merged log is, of two master keys the one that wraps the user's entry in the merged log")
	r.Rule("running: every remote is merged into, and compared with, the outcome of the merges before it")
	r.Rule("remote: what is remembered of a remote (credentials, parameters, log) comes from the one decryption that succeeded")
	a, deciders := newAdoptModel(r)
	if a == nil {
		return
	}
	a.adoptAll(deciders)
}

// newAdoptModel also finds the functions that merge the remotes.
func newAdoptModel(r *Run) (*adoptModel, []*ssa.Function) {
	c := newCredModel(r)
	if c == nil {
		return nil, nil
	}
	c.rule = "adoption"
	a := &adoptModel{credModel: c, merger: map[*ssa.Function]bool{}, yesno: map[string]bool{}}
	if tx := r.P.typ("txlogs.Tx"); tx != nil {
		a.txs = types.NewSlice(tx)
	}
	pt := r.P.typ("crypt.Params")
	if a.txs == nil || pt == nil {
		r.Violate("anchor", "types", "-", "txlogs.Tx or crypt.Params is not in the source", nil)
		return nil, nil
	}
	for _, f := range r.P.modFuncs() {
		if pkgOf(f) != "main" {
			continue
		}
		rs := f.Signature.Results()
		switch {
		case rs.Len() > 0 && types.Identical(rs.At(0).Type(), a.txs) && r.P.reachesAny(f, "txlogs.Merge"):
			a.merger[f] = true
		case rs.Len() == 2 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) && isErrorType(rs.At(1).Type()) && r.P.reachesAny(f, "(main.LineEditor).Line") && plainParams(f):
			a.yesno[fnName(f)] = true
		}
	}
	// the functions that decide the credentials: those returning all six that
	// are called by functions that do not
	var deciders []*ssa.Function
	for f := range c.opaque {
		if pkgOf(f) != "main" {
			continue
		}
		for _, g := range r.P.callers(f) {
			if !c.opaque[g] {
				deciders = append(deciders, f)
				break
			}
		}
	}
	sort.Slice(deciders, func(i, j int) bool { return fnName(deciders[i]) < fnName(deciders[j]) })
	if len(deciders) == 0 || len(a.merger) == 0 {
		r.Violate("anchor", "merge", "-", "the function that merges the remotes into the session was not found", nil)
		return nil, nil
	}
	// what is known of a remote: the struct with credentials, parameters and log
	sc := r.P.ByPkg["main"].Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if st, ok := structUnder(tn.Type()); ok {
				params, log := false, false
				for i := 0; i < st.NumFields(); i++ {
					params = params || types.Identical(st.Field(i).Type(), pt)
					log = log || types.Identical(st.Field(i).Type(), a.txs)
				}
				if params && log {
					a.partsT = tn.Type()
				}
			}
		}
	}
	if a.partsT == nil {
		r.Violate("anchor", "remote", "-", "no type holds the credentials, parameters and log of a remote", nil)
		return nil, nil
	}
	return a, deciders
}

// plainParams: besides the session f is only given text, numbers and flags.
func plainParams(f *ssa.Function) bool {
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok && (i > 0 || f.Signature.Recv() == nil) {
			if _, ok := structUnder(deref(p.Type())); !ok || i > 0 {
				return false
			}
		}
	}
	return true
}

func (a *adoptModel) adoptAll(deciders []*ssa.Function) {
	r, c := a.r, a.credModel
	for _, f := range deciders {
		a.resT = f.Signature.Results().At(c.credResult(f)).Type()
		a.decide(f)
	}
	// the callers of the deciders: sessions
	n := 0
	roots := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function, seen map[*ssa.Function]bool)
	climb = func(f *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		if a.sessionParam(f) {
			for g := range r.P.reach(f) {
				if a.storesCreds(g) && pkgOf(g) == "main" {
					roots[f] = true
					return
				}
			}
		}
		for _, g := range r.P.callers(f) {
			climb(g, seen)
		}
	}
	for _, d := range deciders {
		for _, g := range r.P.callers(d) {
			if !c.opaque[g] {
				climb(g, map[*ssa.Function]bool{})
			}
		}
	}
	var fs []*ssa.Function
	for f := range roots {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		n++
		a.adopt(f, fnName(f))
	}
	if n == 0 {
		r.Violate("anchor", "sync", "-", "nothing merges remotes into the session", nil)
	}
	n = 0
	for _, f := range r.P.modFuncs() {
		if pkgOf(f) == "main" && f.Parent() == nil && r.P.reachesAny(f, "crypt.Decrypt") {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if types.Identical(f.Signature.Results().At(i).Type(), r.P.typ("crypt.Params")) {
					n++
					a.open(f, i)
					break
				}
			}
		}
	}
	if n == 0 {
		r.Violate("anchor", "open", "-", "no function opens a remote and returns its parameters", nil)
	}
	r.Need("adoption", 6)
}

func (a *adoptModel) sessionParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if types.Identical(p.Type(), ptrTo(a.uiT)) {
			return true
		}
		if st, ok := structUnder(deref(p.Type())); ok {
			for j := 0; j < st.NumFields(); j++ {
				if types.Identical(st.Field(j).Type(), ptrTo(a.uiT)) {
					return true
				}
			}
		}
	}
	return false
}

// sixOf reads the six credentials of the running result out of a struct.
func (a *adoptModel) sixOf(s *State, get func(i int) *Term) []*Term {
	var out []*Term
	for _, i := range credStruct(a.resT) {
		out = append(out, get(i))
	}
	st, _ := structUnder(a.resT)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), a.txs) {
			out = append(out, get(i))
		}
	}
	return out
}

// running finds the variable that holds the running result.
func (a *adoptModel) running(s *State) []*Term {
	for _, fr := range s.frames {
		var cells []*Term
		for v, t := range fr.env {
			if al, ok := v.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), a.resT) {
				cells = append(cells, t)
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		st, _ := structUnder(a.resT)
		for _, cell := range cells {
			set := false
			for k := range s.mem {
				if addrRoot(k) == cell {
					set = true
				}
			}
			if !set {
				continue
			}
			return a.sixOf(s, func(i int) *Term {
				return s.Load(s.sim.T.FieldAddr(cell, i, a.resT, ptrTo(st.Field(i).Type())), st.Field(i).Type())
			})
		}
		for v, t := range fr.env {
			if phi, ok := v.(*ssa.Phi); ok && types.Identical(phi.Type(), a.resT) {
				return a.sixOf(s, func(i int) *Term { return s.sim.T.Field(s.sim.expand(t, a.resT), i, st.Field(i).Type()) })
			}
		}
	}
	return nil
}

func (a *adoptModel) mergesIn(h *ssa.BasicBlock) bool {
	for b := range loopBody(h) {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && (a.merger[f] || pkgOf(f) == "main" && a.r.P.inModule[f] && a.reachesMerger(f)) {
					return true
				}
			}
		}
	}
	return false
}

func (a *adoptModel) reachesMerger(f *ssa.Function) bool {
	for g := range a.r.P.reach(f) {
		if a.merger[g] {
			return true
		}
	}
	return false
}

func sameTerms(a, b []*Term, n int) bool {
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a *adoptModel) decide(root *ssa.Function) {
	r := a.r
	cl := &Client{Name: "merge"}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if pkgOf(f) != "main" || a.merger[f] || a.yesno[fnName(f)] {
			return false, true
		}
		if a.opaque[f] || a.reachesMerger(f) {
			return true, true
		}
		if r.P.reachesAny(f, "(main.LineEditor).Line", "(main.LineEditor).LineHidden") {
			for y := range a.yesno {
				if r.P.reachesAny(f, y) {
					return !a.yesno[fnName(f)] && len(f.Blocks) <= 12, true
				}
			}
			return false, true
		}
		return len(f.Blocks) <= 12, true
	}
	m := newSim(r.P, cl)
	T := m.T
	nfield := len(credFields)
	logOf := func(s *State, blobs *Term) *Term {
		bt := r.P.typ("blobformat.Blobs")
		db := s.fieldOf(blobs, bt, "DB")
		if db == nil {
			return nil
		}
		return s.loadField(db, ptrTo(r.P.typ("txlogs.DB")), "Log")
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		if ev.Fn != nil && a.merger[ev.Fn] {
			var logs []*Term
			for _, x := range ev.Args {
				if x.typ != nil && types.Identical(x.typ, a.txs) {
					logs = append(logs, x)
				}
			}
			if len(logs) == 2 {
				out := res
				if res.op == OTuple {
					out = res.args[0]
				} else if ev.Sig.Results().Len() > 1 {
					out = T.Extract(res, 0, a.txs)
				}
				er := T.Nil
				if ev.Sig.Results().Len() > 1 {
					er = T.Extract(baseOf(out), 1, errType)
				}
				s.cl["merge"] = T.Tuple(logs[0], logs[1], out, er)
			}
		}
		if a.yesno[ev.Name] {
			x := behind(res)
			s.cl["yes"] = x
		}
		switch ev.Name {
		case "(blobformat.Blobs).Users", "(blobformat.Blobs).FindUser", "(blobformat.Blobs).Find", "(blobformat.Blobs).MustFind", "(blobformat.Blobs).MustFindUser":
			if l := logOf(s, ev.Args[0]); l != nil {
				call := res
				if res.op == OTuple {
					call = behind(res)
				}
				x := T.Tuple(call, l)
				if len(ev.Args) > 1 {
					x = T.Tuple(call, l, ev.Args[1])
				}
				addTuple(s, "q:"+ev.Name, x)
			}
		}
	}
	cl.OnHeader = func(s *State, h *ssa.BasicBlock) {
		if !a.mergesIn(h) || s.frames[len(s.frames)-1].fn.Parent() != nil {
			return
		}
		cur := a.running(s)
		if cur == nil {
			return
		}
		if s.cl["head"] == nil && !sameTerms(cur, a.init, nfield) {
			a.bad(s, h.Instrs[0], "start", "merging does not start from the session's credentials")
		}
		s.cl["head"] = T.Tuple(cur...)
		for _, k := range sortedKeys(s.cl) {
			if k == "merge" || k == "yes" || k == "mk" || len(k) > 2 && k[:2] == "q:" {
				delete(s.cl, k)
			}
		}
	}
	cl.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		hd := s.cl["head"]
		if hd == nil || !a.mergesIn(h) {
			return
		}
		a.iteration(s, h.Instrs[0], hd.args, a.running(s))
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if !succeeds(s, res) {
			return
		}
		r.Oblige(a.rule, "merge result "+r.P.instrPos(in))
		st, _ := structUnder(a.resT)
		x := s.sim.expand(res[a.credResult(root)], a.resT)
		cur := a.sixOf(s, func(i int) *Term { return T.Field(x, i, st.Field(i).Type()) })
		want := a.init
		if h := s.cl["head"]; h != nil {
			want = h.args
			if len(cur) > nfield && cur[nfield] != want[nfield] {
				a.bad(s, in, "result-log", "the log handed out is not the outcome of merging all remotes")
			}
		}
		for i := 0; i < nfield; i++ {
			if cur[i] != want[i] {
				a.bad(s, in, "result|"+credFields[i], "merging hands out credentials that are not those of the outcome: "+credFields[i])
			}
		}
	}
	cl.OnBranch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		if cond.op == ONot {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == OBin && cond.tok == tokEQL && a.mkeyOf(cond.args[0]) && a.mkeyOf(cond.args[1]) {
			addTuple(s, "mk", T.Tuple(cond, T.Bool(taken)))
		}
	}
	m.Run(root, func(s *State, ps []*Term) {
		if !a.sessionOf(s, root, ps) {
			r.Violate("anchor", "merge", r.P.pos(root.Pos()), "the session is not reachable from the parameters of "+fnName(root), nil)
			return
		}
		a.init = a.session(s)
	})
	r.absorb(m, "merge")
	if r.counts["merged_remotes"] == 0 {
		r.Violate("anchor", "merge-loop", r.P.pos(root.Pos()), "no loop merges the remotes one after another into one result", nil)
	}
}

func (a *adoptModel) iteration(s *State, in ssa.Instruction, old, cur []*Term) {
	T := s.sim.T
	r := a.r
	nf := len(credFields)
	if cur == nil {
		return
	}
	r.Count("merged_remotes", 1)
	r.Oblige(a.rule, "one remote "+r.P.instrPos(in))
	mg := s.cl["merge"]
	if mg == nil && emptyLog(s) {
		for i := range old {
			if i < len(cur) && old[i] != cur[i] {
				a.bad(s, in, "empty", "credentials or the log can change although a remote has nothing to merge")
				break
			}
		}
		return
	}
	if mg == nil {
		a.bad(s, in, "not-merged", "a remote can be passed over without its log being merged")
		return
	}
	if !s.Known(T.Eq(mg.args[3], T.Nil), true) {
		a.bad(s, in, "merge-error", "the outcome of merging a remote is used although merging may have failed")
	}
	local, remote := mg.args[0], mg.args[1]
	var rec *Term
	if remote.op == OField || remote.op == OLoad {
		rec = s.recordOf(remote, a.partsT)
	}
	if len(old) > nf && (local != old[nf] || cur[nf] != mg.args[2]) {
		a.bad(s, in, "log", "a remote is not merged into the outcome of the merges before it")
	}
	if rec == nil {
		a.bad(s, in, "remote", "what is merged is not the log of one of the remotes")
		return
	}
	pt := r.P.typ("crypt.Params")
	params := s.fieldOf(rec, a.partsT, "Params")
	want := a.paramTerms(s, s.sim.expand(params, pt))
	rm := want[2]
	taken := !sameTerms(old, cur, nf)
	if taken {
		cr := s.fieldOf(rec, a.partsT, "Creds")
		ct := structFieldType(a.partsT, "Creds")
		if cr == nil || ct == nil {
			a.bad(s, in, "creds", "a remote no longer remembers the credentials it was opened with")
			return
		}
		from := append([]*Term{s.fieldOf(cr, ct, "User"), s.fieldOf(cr, ct, "Pass")}, want...)
		for i, w := range from {
			if cur[i] != w {
				a.bad(s, in, "mixed|"+credFields[i], "when the credentials of a remote are taken over, "+credFields[i]+" is not the one the remote was opened with")
			}
		}
	}
	mm := old[4]
	zero := func(x *Term) (is, isnt bool) {
		e := T.Eq(T.Len(x), T.Zero)
		return s.Known(e, true), s.Known(e, false)
	}
	mz, mnz := zero(mm)
	rz, rnz := zero(rm)
	lenDiff := s.Known(T.Eq(T.Len(mm), T.Len(rm)), false)
	eq := func(x, y *Term, v bool) bool {
		return s.Known(T.Eq(x, y), v) || a.bytesEq(s, x, y, v)
	}
	switch {
	case eq(mm, rm, true) && !(mz && rz):
		return
	case mz && rz:
		if eq(old[2], want[0], true) {
			return
		}
		at := func(log *Term) *Term {
			tx := r.P.typ("txlogs.Tx")
			el := T.IndexAddr(log, T.Bin(token.SUB, T.Len(log), T.One, types.Typ[types.Int]), ptrTo(tx))
			return s.loadField(el, ptrTo(tx), "Time")
		}
		tl, tr := at(old[nf]), at(remote)
		less := T.Bin(token.LSS, tl, tr, types.Typ[types.Bool])
		yes, asked := false, false
		for f, v := range s.facts {
			x := f
			if x.op == OExtract && x.idx == 0 {
				x = x.args[0]
			}
			if x.op == OCall && a.yesno[x.name] {
				asked = true
				yes = yes || v
			}
		}
		tie := s.Known(T.Eq(tl, tr), true)
		later, earlier := s.Known(less, true), s.Known(T.Bin(token.LSS, tr, tl, types.Typ[types.Bool]), true)
		empty := s.Known(T.Eq(T.Len(remote), T.Zero), true)
		emptyLocal := s.Known(T.Eq(T.Len(old[nf]), T.Zero), true)
		switch {
		case later || emptyLocal && !empty:
			if !taken {
				a.bad(s, in, "single-later", "the credentials of a file without users that was changed last are not taken over")
			}
		case tie && asked || empty && emptyLocal:
			if taken != yes {
				a.bad(s, in, "single-tie", "what the user answered about the credentials to keep is not what happens")
			}
		case empty, earlier || s.Known(less, false) && s.Known(T.Eq(tl, tr), false):
			if taken {
				a.bad(s, in, "single-earlier", "the credentials of a file without users replace those of one that was changed later")
			}
		default:
			a.bad(s, in, "single", "which of two files without users gives the credentials is decided without comparing which was changed last")
		}
	case lenDiff || mz && rnz || mnz && rz || mz != rz && (mz || rz):
		var users *Term
		if q := s.cl["q:(blobformat.Blobs).Users"]; q != nil {
			for _, x := range q.args {
				if x.args[1] == mg.args[2] {
					users = x.args[0]
				}
			}
		}
		if users == nil {
			a.bad(s, in, "kind", "whether the merged file has users is decided without looking for users in the merged log")
			return
		}
		ut := users.typ
		if ut == nil {
			ut = r.P.fn("(blobformat.Blobs).Users").Signature.Results().At(0).Type()
		}
		var l *Term
		for f := range s.facts {
			if x := usersLenOf(f, users); x != nil {
				l = x
			}
		}
		uz, unz := false, false
		if l != nil {
			e := T.Eq(l, T.Zero)
			uz, unz = s.Known(e, true), s.Known(e, false)
		}
		switch {
		case uz && mz, unz && mnz:
			if taken {
				a.bad(s, in, "kind-taken", "the credentials of a remote of the other kind are taken over although the merged log agrees with the local one")
			}
		case uz && mnz, unz && mz:
			if !taken {
				a.bad(s, in, "kind-kept", "the merged log has users and the credentials are those of a file without, or the other way round")
			}
		default:
			a.bad(s, in, "kind", "whether the file has users after the merge is not decided by the users of the merged log and the outcome so far")
		}
	case eq(mm, rm, false):
		a.wrapped(s, in, old, mg, taken)
	default:
		a.bad(s, in, "undecided", "credentials are kept or taken over without comparing the master keys of the outcome so far and the remote")
	}
}

func usersLenOf(f, call *Term) *Term {
	var out *Term
	f.any(func(x *Term) bool {
		if x.op == OLen && x.args[0].op == OExtract && x.args[0].args[0] == call {
			out = x
		}
		return out != nil
	})
	return out
}

// bytesEq: bytes.Equal(x, y) is known to be v.
func (a *adoptModel) bytesEq(s *State, x, y *Term, v bool) bool {
	for f, b := range s.facts {
		if b == v && f.op == OPure && f.name == "bytes.Equal" && len(f.args) >= 2 && (f.args[0] == x && f.args[1] == y || f.args[0] == y && f.args[1] == x) {
			return true
		}
	}
	return false
}

// wrapped: two master keys; the one that the user's entry of the merged log
// wraps is kept.
func (a *adoptModel) wrapped(s *State, in ssa.Instruction, old []*Term, mg *Term, taken bool) {
	find := func(call *Term) (log, arg *Term, user bool) {
		for k, q := range s.cl {
			if len(k) > 2 && k[:2] == "q:" {
				for _, x := range q.args {
					if x.args[0] == call && len(x.args) > 2 {
						return x.args[1], x.args[2], k == "q:(blobformat.Blobs).FindUser" || k == "q:(blobformat.Blobs).MustFindUser"
					}
				}
			}
		}
		return nil, nil, false
	}
	ok := false
	var seen []*Term
	if x := s.cl["mk"]; x != nil {
		seen = x.args
	}
	for _, fv := range seen {
		f, v := fv.args[0], fv.args[1].isBool(true)
		for i := 0; i < 2; i++ {
			x, y := f.args[i], f.args[1-i]
			if !a.mkeyOf(x) || !a.mkeyOf(y) {
				continue
			}
			lx, ux, isU := find(baseCall(x))
			ly, uy, isU2 := find(baseCall(y))
			if lx == nil || ly == nil || lx != old[len(old)-1] || ly != mg.args[2] || !isU || ux != old[0] {
				continue
			}
			if isU2 && uy != old[0] {
				continue
			}
			if !isU2 && baseCall(uy) != baseCall(x) {
				continue
			}
			ok = true
			if v == taken {
				a.bad(s, in, "master", "the credentials kept are not those of the side whose master key the merged log wraps for the user")
			}
		}
	}
	if !ok {
		a.bad(s, in, "master-undecided", "which of two master keys wins is decided without comparing the user's wrapped key before and after the merge")
	}
}

func (a *adoptModel) mkeyOf(x *Term) bool {
	if x.op != OLookup {
		return false
	}
	k, ok := x.args[1].strVal()
	return ok && k == a.keyMKey
}

func baseCall(x *Term) *Term {
	for x != nil {
		switch x.op {
		case OLookup, OExtract, OConvert, OField, OLoad:
			x = x.args[0]
		case OCall:
			return x
		default:
			return nil
		}
	}
	return nil
}

func structFieldType(T types.Type, name string) types.Type {
	i := fieldIndex(T, name)
	if i < 0 {
		return nil
	}
	st, _ := structUnder(T)
	return st.Field(i).Type()
}

// recordOf: x is a field of a value (or of memory) of type T; gives the value.
func (s *State) recordOf(x *Term, T types.Type) *Term {
	st, _ := structUnder(T)
	switch x.op {
	case OField:
		if types.Identical(x.args[0].typ, T) {
			return x.args[0]
		}
	case OLoad:
		if a := x.args[0]; a.op == OFieldAddr && a.args[0].typ != nil && types.Identical(deref(a.args[0].typ), T) {
			v := s.Load(a.args[0], T)
			_ = st
			return v
		}
	}
	return nil
}

// adopt: the session takes the result of one merge or keeps what it has.
func (a *adoptModel) adopt(root *ssa.Function, name string) {
	r := a.r
	cl := a.client(name, root)
	inner := cl.Inline
	cl.Inline = func(f *ssa.Function) (bool, bool) {
		if pkgOf(f) == "main" && !a.opaque[f] {
			for g := range r.P.reach(f) {
				if a.opaque[g] {
					return true, true
				}
			}
			if r.P.reachesAny(f, "crypt.Decrypt") && f != root {
				for i := 0; i < f.Signature.Results().Len(); i++ {
					if types.Identical(f.Signature.Results().At(i).Type(), r.P.typ("crypt.Params")) {
						return false, true
					}
				}
			}
			if a.buildsParts(f) {
				return true, true
			}
			if a.storesCreds(f) || len(f.Blocks) == 1 {
				return true, true
			}
			return false, true
		}
		return inner(f)
	}
	m := newSim(r.P, cl)
	T := m.T
	dbT := r.P.typ("txlogs.DB")
	cl.OnResult = func(ev *CallEv, res *Term) {
		if ev.Fn != nil && a.opaque[ev.Fn] {
			x := behind(res)
			ev.S.cl["merge"] = x
		}
	}
	cl.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OFieldAddr && addr.args[0].typ != nil && types.Identical(deref(addr.args[0].typ), dbT) && types.Identical(deref(addr.typ), a.txs) {
			s.cl["log"] = val
		}
	}
	cl.OnAppend = func(s *State, out *Term, in ssa.Instruction) {
		if sl, ok := out.typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), a.partsT) && len(out.args) == 2 {
			a.remembered(s, out.args[1], in)
		}
	}
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		cur := a.session(s)
		mg := s.cl["merge"]
		log := s.cl["log"]
		changed := !sameTerms(cur, a.init, len(credFields))
		r.Oblige(a.rule, name+" returns "+r.P.instrPos(in))
		if mg == nil {
			return // other commands: C05
		}
		var src *Term
		if changed {
			x := cur[0]
			if x.op == OField {
				src = x.args[0]
			}
			for i, f := range credStruct(a.resT) {
				if src == nil || cur[i].op != OField || cur[i].args[0] != src || cur[i].idx != f {
					a.bad(s, in, "session|"+credFields[i], "the session takes over some credentials of a merge but keeps or mixes others: "+credFields[i])
				}
			}
			if src == nil || baseCall(src) != mg {
				a.bad(s, in, "session-source", "the session's credentials are replaced by something that is not the result of merging the remotes")
				return
			}
		}
		if log != nil && baseCall(log) != mg {
			a.bad(s, in, "log-source", "the session's log is replaced by something that is not the log of the merge the credentials come from")
		}
		if (log != nil) != changed {
			a.bad(s, in, "apart", "the session can take over the log of a merge without its credentials, or the credentials without the log")
		}
		if changed || log != nil {
			e := errOf(T, mg, mg.sigErr(r.P))
			if !s.Known(T.Eq(e, T.Nil), true) {
				a.bad(s, in, "aborted", "the session is changed although the merge may have been aborted")
			}
		}
	}
	m.Run(root, func(s *State, ps []*Term) {
		if a.sessionOf(s, root, ps) {
			a.init = a.session(s)
		}
	})
	r.absorb(m, name)
}

func (x *Term) sigErr(p *Prog) int {
	if f := p.fn(x.name); f != nil {
		return errResult(f.Signature)
	}
	return 1
}

func (a *adoptModel) buildsParts(f *ssa.Function) bool {
	for g := range a.r.P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), a.partsT) {
						return true
					}
				}
			}
		}
	}
	return false
}

// remembered: a remote that is going to be merged was opened as a whole.
func (a *adoptModel) remembered(s *State, x *Term, in ssa.Instruction) {
	T := s.sim.T
	r := a.r
	r.Oblige(a.rule, "remote remembered "+r.P.instrPos(in))
	p, c, l := s.fieldOf(x, a.partsT, "Params"), s.fieldOf(x, a.partsT, "Creds"), s.fieldOf(x, a.partsT, "Log")
	bad := func(k, m string) { a.bad(s, in, "remote-"+k, m) }
	open := baseCall(p)
	if open == nil && p.op == OStruct && len(p.args) > 0 {
		open = baseCall(p.args[0])
	}
	cc := baseCall(c)
	if cc == nil && c.op == OStruct && len(c.args) > 0 {
		cc = baseCall(c.args[0])
	}
	if open == nil || cc != open {
		bad("creds", "the credentials remembered of a remote are not the ones its parameters were read with")
		return
	}
	nl, i := resOf(l, "txlogs.NewLog")
	if nl == nil || i != 0 {
		bad("log", "the log of a remote is not the one read from its contents")
		return
	}
	if baseCall(nl.args[len(nl.args)-1]) != open {
		bad("log-of-other", "the log of a remote is read from other contents than its credentials")
	}
	if !s.Known(T.Eq(errOf(T, nl, 1), T.Nil), true) {
		bad("log-error", "a remote whose log may not have been readable is merged")
	}
	if f := r.P.fn(open.name); f != nil {
		if e := errResult(f.Signature); e >= 0 && !s.Known(T.Eq(T.Extract(open, e, errType), T.Nil), true) {
			bad("open-error", "a remote that may not have been opened is merged")
		}
	}
}

// open: what a function that opens a remote returns belongs together.
func (a *adoptModel) open(root *ssa.Function, pi int) {
	r := a.r
	rs := root.Signature.Results()
	ci, bi := -1, -1
	for i := 0; i < rs.Len(); i++ {
		if fieldIndex(rs.At(i).Type(), "Pass") >= 0 && fieldIndex(rs.At(i).Type(), "User") >= 0 && i != pi {
			ci = i
		}
		if isByteSlice(rs.At(i).Type()) {
			bi = i
		}
	}
	if ci < 0 || bi < 0 {
		r.Violate("anchor", fnName(root), r.P.pos(root.Pos()), fnName(root)+" opens a file but does not return the credentials and contents with its parameters", nil)
		return
	}
	cl := a.client(fnName(root), root)
	m := newSim(r.P, cl)
	T := m.T
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if !succeeds(s, res) {
			return
		}
		pt := res[bi]
		if s.IsNil(pt) || s.Known(T.Eq(T.Len(pt), T.Zero), true) {
			return
		}
		r.Oblige(a.rule, fnName(root)+" returns "+r.P.instrPos(in))
		d, i := resOf(pt, "crypt.Decrypt")
		if d == nil || i != 2 || len(d.args) != 5 {
			a.bad(s, in, "open-contents", "the contents handed out for a remote do not come from decrypting it")
			return
		}
		if !s.Known(T.Eq(T.Extract(d, 3, errType), T.Nil), true) {
			a.bad(s, in, "open-failed", "a remote counts as opened although decrypting it may have failed")
		}
		p := res[pi]
		if p.op == OStruct && len(p.args) > 0 {
			p = p.args[0]
		}
		if b := baseOf(p); b != d {
			a.bad(s, in, "open-params", "the parameters handed out for a remote do not come from the decryption that succeeded")
		}
		ct := rs.At(ci).Type()
		for i, n := range []string{"User", "Pass"} {
			if b := bytesOf(d.args[i]); b == nil || b != s.fieldOf(res[ci], ct, n) {
				a.bad(s, in, "open-"+n, "the credentials handed out for a remote are not the ones it was opened with: "+n)
			}
		}
	}
	m.Run(root, func(s *State, ps []*Term) {
		if a.sessionOf(s, root, ps) {
			a.init = a.session(s)
		}
	})
	r.absorb(m, fnName(root))
}

// behind: the call a result comes from.
func behind(x *Term) *Term {
	for x != nil && (x.op == OTuple || x.op == OStruct) && len(x.args) > 0 {
		x = x.args[0]
	}
	return baseOf(x)
}

// emptyLog: on this path some log that is not the session's was found empty.
func emptyLog(s *State) bool {
	for f, v := range s.facts {
		if !v || f.op != OBin || f.tok != tokEQL {
			continue
		}
		for k := 0; k < 2; k++ {
			l := f.args[k]
			if z, ok := f.args[1-k].intVal(); ok && z == 0 && l.op == OLen && l.args[0].any(func(y *Term) bool { return y.op == OIndexAddr }) {
				if sl, ok := l.args[0].typ.Underlying().(*types.Slice); ok && sl.Elem().String() == "github.com/aarondl/bpass/txlogs.Tx" {
					return true
				}
			}
		}
	}
	return false
}
