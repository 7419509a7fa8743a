package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13", Title: "transactions are all or nothing", Run: runC13,
		Explanation: "Begin, Commit, Rollback, Do, RollbackN and Save of the transaction log are executed abstractly from an arbitrary database (an active transaction only has the mark that some Begin leaves). At every return the log, the snapshot, its version and the transaction mark are compared, as terms, with their values on entry and with what the operation promises."})
}

// dbModel runs methods of txlogs.DB from an arbitrary receiver.
type dbModel struct {
	r    *Run
	ptr  types.Type // *txlogs.DB
	db   types.Type
	rule string
	mark int64 // txPoint of a Begin is len(Log)+mark
}

type dbVals struct{ log, snap, ver, tx *Term }

func newDBModel(r *Run) *dbModel {
	t := r.P.typ("txlogs.DB")
	if t == nil {
		r.Violate("anchor", "txlogs.DB", "-", "the type txlogs.DB is not in the source", nil)
		return nil
	}
	d := &dbModel{r: r, db: t, ptr: ptrTo(t)}
	for _, f := range []string{"Log", "Snapshot", "Version", "txPoint"} {
		if fieldIndex(t, f) < 0 {
			r.Violate("anchor", "txlogs.DB."+f, "-", "the field "+f+" of txlogs.DB is not in the source", nil)
			return nil
		}
	}
	return d
}

func (d *dbModel) vals(s *State, db *Term) dbVals {
	return dbVals{s.loadField(db, d.ptr, "Log"), s.loadField(db, d.ptr, "Snapshot"), s.loadField(db, d.ptr, "Version"), s.loadField(db, d.ptr, "txPoint")}
}

// nonNeg: the mark of a transaction is 0 or a length plus a positive constant
// (proved for Begin; no other function stores anything but 0).
func (d *dbModel) nonNeg(a *Term) bool {
	if a.op != OLoad || a.args[0].op != OFieldAddr {
		return false
	}
	k, ok := a.args[0].obj.(fieldKey)
	return ok && k == fieldKeyOf(d.db, fieldIndex(d.db, "txPoint"))
}

// run executes a method and calls exit at every return.
func (d *dbModel) run(fn *ssa.Function, c *Client, init func(s *State, p []*Term, v0 dbVals), exit func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction)) {
	var P []*Term
	var v0 dbVals
	if c == nil {
		c = &Client{}
	}
	c.Name = fnName(fn)
	c.Houdini = true
	c.KeepFacts = true
	if c.Inline == nil {
		c.Inline = func(*ssa.Function) (bool, bool) { return true, true }
	}
	if c.Track == nil {
		c.Track = func(string) bool { return true }
	}
	prev := c.OnStore
	c.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if prev != nil {
			prev(s, addr, val, in)
		}
		if a := addrRoot(addr); a != addr {
			x := addr
			for x.op == OFieldAddr || x.op == OIndexAddr {
				if x.op == OIndexAddr && bufOf(x.args[0]) == v0.log {
					d.r.Violate(d.rule, "element|"+fnName(in.Parent()), d.r.P.instrPos(in), "an entry of the log is overwritten in place", s.Trail(8))
				}
				x = x.args[0]
			}
		}
	}
	c.OnCopy = func(s *State, dst, src *Term, in ssa.Instruction) {
		if dst.op == OMake {
			s.cl["copied:"+tid(dst)] = s.sim.T.Tuple(dst, src)
		}
		if bufOf(dst) == v0.log {
			d.r.Violate(d.rule, "copy|"+fnName(in.Parent()), d.r.P.instrPos(in), "entries of the log are overwritten in place by a copy", s.Trail(8))
		}
	}
	c.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		exit(s, P[0], P, v0, d.vals(s, P[0]), res, in)
	}
	m := newSim(d.r.P, c)
	m.AxiomNonNeg = d.nonNeg
	m.Run(fn, func(s *State, params []*Term) {
		P = params
		v0 = d.vals(s, params[0])
		for f, v := range map[string]*Term{"Version": v0.ver, "txPoint": v0.tx} {
			i := fieldIndex(d.db, f)
			s.mem[m.T.FieldAddr(params[0], i, d.db, ptrTo(v.typ))] = v
		}
		if init != nil {
			init(s, params, v0)
		}
	})
	d.r.absorb(m, fnName(fn))
}

// prefix: x is the first n entries of log, untouched.
func (d *dbModel) prefix(s *State, x, log, n *Term) bool {
	T := s.sim.T
	if x == log {
		return s.eqInt(n, T.Len(log))
	}
	if x.op == OAppendS && (x.args[0].op == ONil || s.eqInt(T.Len(x.args[0]), T.Zero)) {
		return d.prefix(s, x.args[1], log, n) // a fresh copy
	}
	if x.op == OMake && s.eqInt(T.Len(x), n) {
		if c, ok := s.cl["copied:"+tid(x)]; ok && len(c.args) == 2 {
			y := c.args[1]
			return y == log && s.ProveLE(n, T.Len(log)) || d.prefix(s, y, log, n)
		}
	}
	return x.op == OSlice && x.args[0] == log && s.eqInt(x.args[1], T.Zero) && x.args[2].op != ONone && s.eqInt(x.args[2], n)
}

// coherent: the snapshot is discarded or cannot have seen entries past n.
func (d *dbModel) coherent(s *State, in, out dbVals, n *Term) bool {
	T := s.sim.T
	if s.eqInt(out.ver, T.Zero) && s.IsNil(out.snap) {
		return true
	}
	return out.snap == in.snap && out.ver == in.ver && s.ProveLE(out.ver, n)
}

func runC13(r *Run) {
	r.Rule("begin: Begin leaves log and snapshot alone, marks the current end of the log with a value that cannot be mistaken for 'no transaction', and refuses to start while one is active")
	r.Rule("commit: Commit keeps the log and snapshot and ends the transaction")
	r.Rule("rollback: after Rollback the log is exactly its first k entries, k being its length when the transaction began; a snapshot that may have seen more is discarded; the transaction is over")
	r.Rule("rollback-n: RollbackN(n) either fails and changes nothing, or removes exactly the last n entries and discards a snapshot that may have seen them")
	r.Rule("do: Do runs the function once between Begin and the end, rolls back exactly when it failed, commits otherwise and returns its error")
	r.Rule("save: Save never serialises while a transaction is active")
	r.Rule("mark: nothing outside Begin marks a transaction as active")
	d := newDBModel(r)
	if d == nil {
		return
	}
	begin, commit, rollback, rollbackN, do, save := r.Anchor("(*txlogs.DB).Begin"), r.Anchor("(*txlogs.DB).Commit"), r.Anchor("(*txlogs.DB).Rollback"), r.Anchor("(*txlogs.DB).RollbackN"), r.Anchor("(*txlogs.DB).Do"), r.Anchor("(*txlogs.DB).Save")
	if begin == nil || commit == nil || rollback == nil || rollbackN == nil || do == nil || save == nil {
		return
	}
	bad := func(s *State, in ssa.Instruction, key, msg string) {
		r.Violate(d.rule, key+"|"+fnName(in.Parent()), r.P.instrPos(in), msg, s.Trail(12))
	}
	same := func(a, b dbVals) bool { return a.log == b.log && a.snap == b.snap && a.ver == b.ver }

	d.rule = "begin"
	d.mark = -1
	d.run(begin, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		r.Oblige("begin", r.P.instrPos(in))
		k := int64(-1)
		for i := int64(1); i < 4; i++ {
			if s.eqInt(out.tx, T.addConst(T.Len(in0.log), i, intT)) {
				k = i
			}
		}
		if k < 0 || d.mark >= 0 && d.mark != k {
			bad(s, in, "mark", "Begin does not record the length of the log plus a positive constant: "+short(out.tx))
			return
		}
		d.mark = k
		if !same(in0, out) {
			bad(s, in, "changes", "Begin changes the log or the snapshot")
		}
		if !s.eqInt(in0.tx, T.Zero) {
			bad(s, in, "nested", "Begin can succeed while a transaction is active, which forgets where that one began")
		}
	})
	if d.mark < 0 {
		r.Violate("begin", "none", "-", "Begin never returns with a transaction mark", nil)
		return
	}

	d.rule = "commit"
	d.run(commit, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		r.Oblige("commit", r.P.instrPos(in))
		if !s.eqInt(out.tx, s.sim.T.Zero) {
			bad(s, in, "open", "Commit returns with the transaction still active")
		}
		if !same(in0, out) {
			bad(s, in, "changes", "Commit changes the log or the snapshot")
		}
	})

	d.rule = "rollback"
	d.run(rollback, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		r.Oblige("rollback", r.P.instrPos(in))
		if s.eqInt(in0.tx, T.Zero) {
			if !same(in0, out) {
				bad(s, in, "inactive", "Rollback without an active transaction changes the database")
			}
			return
		}
		if !s.Known(T.Eq(in0.tx, T.Zero), false) {
			bad(s, in, "inactive", "Rollback acts without checking that a transaction is active")
			return
		}
		n := T.addConst(in0.tx, -d.mark, intT)
		if !d.prefix(s, out.log, in0.log, n) {
			bad(s, in, "log", "after Rollback the log is not the log as it was at Begin: "+short(out.log))
		}
		if !d.coherent(s, in0, out, n) {
			bad(s, in, "snapshot", "after Rollback a snapshot that has seen rolled back entries can survive")
		}
		if !s.eqInt(out.tx, T.Zero) {
			bad(s, in, "open", "Rollback returns with the transaction still active")
		}
	})

	d.rule = "rollback-n"
	d.run(rollbackN, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		r.Oblige("rollback-n", r.P.instrPos(in))
		if !s.IsNil(res[0]) {
			if !same(in0, out) {
				bad(s, in, "failed", "RollbackN fails but changes the database")
			}
			if !s.NonNil(res[0]) {
				bad(s, in, "undecided", "RollbackN returns an error that may be nil here")
			}
			return
		}
		if s.eqInt(p[1], T.Zero) && same(in0, out) {
			return
		}
		n := T.Bin(tokSUB, T.Len(in0.log), p[1], intT)
		if !s.ProveLE(p[1], T.Len(in0.log)) {
			bad(s, in, "range", "RollbackN accepts more transactions than there are")
			return
		}
		if !d.prefix(s, out.log, in0.log, n) {
			bad(s, in, "log", "after RollbackN the log is not the first len-n entries: "+short(out.log))
		}
		if !d.coherent(s, in0, out, n) {
			bad(s, in, "snapshot", "after RollbackN a snapshot that has seen removed entries can survive")
		}
		if out.tx != in0.tx {
			bad(s, in, "mark", "RollbackN changes the transaction mark")
		}
	})

	d.rule = "save"
	d.run(save, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		r.Oblige("save", r.P.instrPos(in))
		if s.NonNil(res[1]) {
			return
		}
		if !s.eqInt(in0.tx, s.sim.T.Zero) {
			bad(s, in, "active", "Save can serialise the log while a transaction is active")
		}
	})

	d.rule = "do"
	const seq = "seq"
	c := &Client{}
	c.Inline = func(f *ssa.Function) (bool, bool) {
		if f == begin || f == commit || f == rollback {
			return false, true
		}
		return true, true
	}
	c.OnCall = func(ev *CallEv) {
		s := ev.S
		T := s.sim.T
		ph := ""
		switch {
		case ev.Fn != nil && (ev.Fn == begin || ev.Fn == commit || ev.Fn == rollback):
			ph = map[*ssa.Function]string{begin: "B", commit: "C", rollback: "R"}[ev.Fn]
		case ev.Name == "dyn" || ev.Fn == nil && ev.Sig != nil && ev.Sig.Params().Len() == 0 && ev.Sig.Results().Len() == 1:
			ph = "F"
		default:
			return
		}
		old := ""
		if t, ok := s.cl[seq]; ok {
			old, _ = t.strVal()
		}
		if len(old) < 8 {
			s.cl[seq] = T.Str(old + ph)
		}
	}
	c.OnResult = func(ev *CallEv, res *Term) {
		if ev.Fn == nil && ev.Sig != nil && ev.Sig.Params().Len() == 0 && ev.Sig.Results().Len() == 1 {
			ev.S.cl["fnerr"] = res
		}
	}
	d.run(do, c, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		q := ""
		if t, ok := s.cl[seq]; ok {
			q, _ = t.strVal()
		}
		r.Oblige("do", r.P.instrPos(in)+" "+q)
		e := s.cl["fnerr"]
		switch {
		case e == nil:
			bad(s, in, "nofn", "Do returns without having run the function")
		case q == "BFR" && !s.NonNil(e):
			bad(s, in, "rollback", "Do rolls back although the function may have succeeded")
		case q == "BFC" && !s.IsNil(e):
			bad(s, in, "commit", "Do commits although the function may have failed")
		case q != "BFR" && q != "BFC":
			bad(s, in, "sequence", "Do does not run Begin, the function and then exactly one of Commit and Rollback (B=Begin F=function C=Commit R=Rollback): "+q)
		}
		if e != nil && res[0] != e && !(s.IsNil(e) && s.IsNil(res[0])) {
			bad(s, in, "error", "Do does not return the error of the function")
		}
	})

	// nothing else marks a transaction
	fi := fieldIndex(d.db, "txPoint")
	for _, f := range r.P.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != fi || !types.Identical(deref(fa.X.Type()), d.db) {
					continue
				}
				r.Oblige("mark", fnName(f)+" "+r.P.instrPos(in))
				if f == begin {
					continue
				}
				if k, isC := st.Val.(*ssa.Const); !isC || k.Int64() != 0 {
					r.Violate("mark", fnName(f), r.P.instrPos(in), "the transaction mark is set outside Begin", nil)
				}
			}
		}
	}
	for rule, n := range map[string]int{"begin": 1, "commit": 1, "rollback": 1, "rollback-n": 2, "save": 2, "do": 2, "mark": 2} {
		r.Need(rule, n)
	}
}
