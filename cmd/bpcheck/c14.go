package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14", Title: "what is read is exactly what the log says", Run: runC14,
		Explanation: "The function that applies one transaction to a snapshot is executed for every kind of transaction and its map operations are compared with the meaning of the kind. UpdateSnapshot and SnapshotAt are executed with a ghost counter of the entries applied so far, related to the loop variables by inferred invariants. Every load of DB.Snapshot in the program and every replacement of DB.Log is then followed path by path from the entry points: a snapshot is read only after it was brought up to date, and never survives a replaced log."})
}

func (d *dbModel) entryMap() types.Type {
	st, _ := structUnder(d.db)
	return st.Field(fieldIndex(d.db, "Snapshot")).Type()
}

// applyArgs finds the snapshot and the transaction among a signature's
// parameters (receiver first), -1 if it is no apply function.
func (d *dbModel) applyArgs(fn *ssa.Function) (dst, tx int) {
	dst, tx = -1, -1
	if fn == nil || fn.Synthetic != "" || len(fn.Params) < 2 {
		return
	}
	mt := d.entryMap()
	for i, p := range fn.Params {
		if types.Identical(p.Type(), mt) {
			dst = i
		}
		if types.Identical(p.Type(), d.r.P.typ("txlogs.Tx")) {
			tx = i
		}
	}
	if dst < 0 || tx < 0 || fn.Signature.Results().Len() != 1 {
		return -1, -1
	}
	return
}

// txIndex: t is the transaction log[i]; returns i.
func txIndex(t, log *Term) *Term {
	if t.op == OLoad && t.args[0].op == OIndexAddr && t.args[0].args[0] == log {
		return t.args[0].args[1]
	}
	if t.op != OStruct {
		return nil
	}
	var at *Term
	for i, f := range t.args {
		if f.op != OLoad || f.args[0].op != OFieldAddr || f.args[0].args[0].op != OIndexAddr || f.args[0].idx != i {
			return nil
		}
		a := f.args[0].args[0]
		if at != nil && at != a {
			return nil
		}
		at = a
	}
	if at == nil || at.args[0] != log {
		return nil
	}
	return at.args[1]
}

func runC14(r *Run) {
	r.Rule("apply: adding an entry creates it empty and only if it is not there; deleting, setting and deleting a key require it to be there and do exactly that; any error leaves the snapshot alone; unknown kinds change nothing")
	r.Rule("update: UpdateSnapshot applies log entries Version, Version+1, ... each exactly once, in order, counts an entry only after it was applied successfully, reports a failed entry, and on success covers the whole log")
	r.Rule("view-at: SnapshotAt(n) applies exactly the first len-n entries, in order, to an empty snapshot")
	r.Rule("entry-at: EntrySnapshotAt(uuid, n) applies, in order and to a new snapshot, the changes of that entry except the last n, and returns that entry; NVersions counts exactly the changes of the entry")
	r.Rule("fresh-read: DB.Snapshot is read outside package txlogs only after UpdateSnapshot succeeded on that path since the log was loaded, replaced or (inside blobformat) appended to")
	r.Rule("replaced-log: when DB.Log is replaced by another log the snapshot of the old one is discarded before anything uses it")
	r.Rule("map-writers: entry maps are changed only while applying a transaction (or when freshly made)")
	d := newDBModel(r)
	if d == nil {
		return
	}
	d.rule = "apply"
	applies := map[*ssa.Function]bool{}
	for _, fn := range r.P.modFuncs() {
		if a, _ := d.applyArgs(fn); a >= 0 {
			applies[fn] = true
			d.checkApply(fn)
		}
	}
	r.Need("apply", 4)
	if f := r.Anchor("(*txlogs.DB).UpdateSnapshot"); f != nil {
		d.rule = "update"
		d.checkUpdate(f, applies, false)
		r.Need("update", 2)
	}
	if f := r.Anchor("(*txlogs.DB).SnapshotAt"); f != nil {
		d.rule = "view-at"
		d.checkUpdate(f, applies, true)
		r.Need("view-at", 2)
	}
	d.rule = "entry-at"
	if f := r.Anchor("(*txlogs.DB).EntrySnapshotAt"); f != nil {
		d.entryAt(f, applies, false)
	}
	if f := r.Anchor("(*txlogs.DB).NVersions"); f != nil {
		d.entryAt(f, applies, true)
	}
	r.Need("entry-at", 4)
	d.mapWriters(applies)
	d.readers()
}

func (d *dbModel) checkApply(fn *ssa.Function) {
	r := d.r
	di, ti := d.applyArgs(fn)
	scope := r.P.ByPkg["txlogs"].Pkg.Scope()
	var P []*Term
	c := &Client{Name: fnName(fn), Houdini: true, KeepFacts: true}
	c.Inline = func(*ssa.Function) (bool, bool) { return true, true }
	c.Track = func(string) bool { return true }
	c.OnMapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		var l []*Term
		if x, ok := s.cl["upd"]; ok {
			l = x.args
		}
		s.cl["upd"] = s.sim.T.Tuple(append(append([]*Term(nil), l...), s.sim.T.Tuple(m, k, v))...)
	}
	c.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		where := r.P.instrPos(in)
		bad := func(key, msg string) { r.Violate("apply", key+"|"+fnName(fn), where, msg, s.Trail(12)) }
		txT := fn.Params[ti].Type()
		tx, dst := P[ti], P[di]
		uuid, key, value, kind := s.fieldOf(tx, txT, "UUID"), s.fieldOf(tx, txT, "Key"), s.fieldOf(tx, txT, "Value"), s.fieldOf(tx, txT, "Kind")
		if uuid == nil || key == nil || value == nil || kind == nil {
			bad("shape", "Tx no longer has Kind, UUID, Key and Value")
			return
		}
		var upd []*Term
		if x, ok := s.cl["upd"]; ok {
			upd = x.args
		}
		which, open := "", false
		for _, n := range []string{"TxAdd", "TxDelete", "TxSetKey", "TxDeleteKey"} {
			k, ok := scope.Lookup(n).(*types.Const)
			if !ok {
				bad("shape", "the constant "+n+" is gone")
				return
			}
			eq := T.Eq(kind, T.Const(k.Val(), k.Type()))
			if s.Known(eq, true) {
				which = n
			} else if !s.Known(eq, false) {
				open = true
			}
		}
		if !s.IsNil(res[0]) {
			r.Oblige("apply", "error "+which+" "+where)
			if len(upd) > 0 {
				bad("error-mutates", "an entry can be changed although the transaction fails")
			}
			return
		}
		r.Oblige("apply", which+" "+where)
		if which == "" {
			if open || len(upd) > 0 {
				bad("unknown", "a transaction is applied without looking at its kind")
			}
			return
		}
		have := func(want bool) bool {
			for f, v := range s.facts {
				if f.op == OLookupOk && f.args[0] == dst && f.args[1] == uuid {
					return v == want
				}
				if x, eq := isNilTest(f, T); x != nil && eq && x.op == OLookup && x.args[0] == dst && x.args[1] == uuid && v == !want {
					return true
				}
			}
			return false
		}
		if len(upd) != 1 {
			bad("count|"+which, "a successful "+which+" transaction does not make exactly one change to the snapshot")
			return
		}
		m, k, v := upd[0].args[0], upd[0].args[1], upd[0].args[2]
		entry := m.op == OLookup && m.args[0] == dst && m.args[1] == uuid
		switch which {
		case "TxAdd":
			if m != dst || k != uuid || v.op != OMake {
				bad("add", "adding an entry does not put a new empty entry under its uuid")
			}
			if !have(false) {
				bad("add-exists", "an entry that is already there can be replaced by an add")
			}
		case "TxDelete":
			if m != dst || k != uuid || v != T.None {
				bad("del", "deleting an entry does not remove its uuid from the snapshot")
			}
			if !have(true) {
				bad("del-missing", "deleting an entry that is not there is not an error")
			}
		case "TxSetKey":
			if !entry || k != key || v != value {
				bad("set", "setting a key does not store the transaction's value under its key in its entry")
			}
			if !have(true) {
				bad("set-missing", "setting a key of an entry that is not there is not an error")
			}
		case "TxDeleteKey":
			if !entry || k != key || v != T.None {
				bad("delk", "deleting a key does not remove the transaction's key from its entry")
			}
			if !have(true) {
				bad("delk-missing", "deleting a key of an entry that is not there is not an error")
			}
		}
	}
	m := newSim(r.P, c)
	m.Run(fn, func(s *State, params []*Term) { P = params })
	r.absorb(m, fnName(fn))
}

// isNilTest: f is the fact "x == nil".
func isNilTest(f *Term, T *Terms) (*Term, bool) {
	if f.op == OBin && f.tok == tokEQL {
		if f.args[0] == T.Nil {
			return f.args[1], true
		}
		if f.args[1] == T.Nil {
			return f.args[0], true
		}
	}
	return nil, false
}

// checkUpdate: the applies of UpdateSnapshot (view=false) or SnapshotAt.
func (d *dbModel) checkUpdate(fn *ssa.Function, applies map[*ssa.Function]bool, view bool) {
	r := d.r
	var log *Term
	var db *Term
	c := &Client{}
	c.Inline = func(f *ssa.Function) (bool, bool) { return !applies[f], true }
	bad := func(s *State, in ssa.Instruction, key, msg string) {
		r.Violate(d.rule, key+"|"+fnName(in.Parent()), r.P.instrPos(in), msg, s.Trail(12))
	}
	settle := func(s *State) {
		if p, ok := s.cl["pend"]; ok && s.IsNil(p.args[1]) {
			s.ghostSet("next", s.sim.T.addConst(p.args[0], 1, intT))
			delete(s.cl, "pend")
		}
	}
	c.OnBackEdge = func(s *State, h *ssa.BasicBlock) { settle(s) }
	c.OnCall = func(ev *CallEv) {
		if ev.Fn == nil || !applies[ev.Fn] {
			return
		}
		s := ev.S
		T := s.sim.T
		settle(s)
		di, ti := d.applyArgs(ev.Fn)
		where := r.P.instrPos(ev.Instr)
		r.Oblige(d.rule, "apply at "+where)
		if _, ok := s.cl["pend"]; ok {
			bad(s, ev.Instr, "unchecked", "the next entry is applied although the one before may have failed")
		}
		if view {
			if b := ev.Args[di]; b.op != OMake {
				bad(s, ev.Instr, "target", "the entries are applied to something else than a new snapshot")
			} else if cur, ok := s.cl["target"]; ok && cur != b {
				bad(s, ev.Instr, "target", "the entries are applied to more than one snapshot")
			} else {
				s.cl["target"] = b
			}
		} else if ev.Args[di] != d.vals(s, db).snap {
			bad(s, ev.Instr, "target", "the entry is applied to something else than the database's snapshot: "+short(ev.Args[di]))
		}
		i := txIndex(ev.Args[ti], log)
		switch {
		case i == nil:
			bad(s, ev.Instr, "source", "what is applied is not an entry of the log: "+short(ev.Args[ti]))
		case !s.eqInt(i, s.ghostGet("next")):
			bad(s, ev.Instr, "order", "entry "+short(i)+" is applied but the number of entries applied so far is "+short(s.ghostGet("next")))
		}
		if i == nil {
			i = T.Zero
		}
		s.cl["pendi"] = i
	}
	c.OnResult = func(ev *CallEv, res *Term) {
		if ev.Fn != nil && applies[ev.Fn] {
			s := ev.S
			s.cl["pend"] = s.sim.T.Tuple(s.cl["pendi"], res)
			delete(s.cl, "pendi")
		}
	}
	vk := fieldKeyOf(d.db, fieldIndex(d.db, "Version"))
	c.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		k, ok := addr.obj.(fieldKey)
		if addr.op != OFieldAddr || !ok || k != vk || addr.args[0] != db {
			return
		}
		settle(s)
		if view {
			bad(s, in, "version", "a view of the past changes the version of the current snapshot")
			return
		}
		r.Oblige("update", "version at "+r.P.instrPos(in))
		if !s.eqInt(val, s.ghostGet("next")) {
			bad(s, in, "version", "the snapshot's version is set to "+short(val)+" while the number of entries applied successfully is "+short(s.ghostGet("next")))
		}
	}
	d.run(fn, c, func(s *State, p []*Term, v0 dbVals) {
		db, log = p[0], v0.log
		if view {
			s.ghostSet("next", s.sim.T.Zero)
		} else {
			s.ghostSet("next", v0.ver)
		}
	}, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		settle(s)
		r.Oblige(d.rule, "return at "+r.P.instrPos(in))
		err := res[len(res)-1]
		if out.log != in0.log || out.tx != in0.tx {
			bad(s, in, "log", "the log is changed")
		}
		if p, ok := s.cl["pend"]; ok {
			if !s.NonNil(p.args[1]) {
				bad(s, in, "unchecked", "the result of applying an entry is not looked at")
			} else if !s.NonNil(err) {
				bad(s, in, "swallowed", "an entry failed to apply but success is reported")
			}
		}
		next := s.ghostGet("next")
		if view {
			if out.ver != in0.ver || out.snap != in0.snap {
				bad(s, in, "current", "a view of the past changes the current snapshot")
			}
			if s.NonNil(err) {
				return
			}
			if tg, ok := s.cl["target"]; ok && tg != res[0] || !ok && res[0].op != OMake {
				bad(s, in, "result", "the snapshot returned is not the one built")
			}
			if want := T.Bin(tokSUB, T.Len(log), p[1], intT); !s.eqInt(next, want) {
				bad(s, in, "count", "the number of entries applied ("+short(next)+") is not len-n")
			}
			return
		}
		if !s.eqInt(out.ver, next) {
			bad(s, in, "version", "the version ("+short(out.ver)+") is not the number of entries applied ("+short(next)+")")
		}
		if !s.NonNil(err) && !s.ProveLE(T.Len(log), out.ver) {
			bad(s, in, "partial", "UpdateSnapshot reports success before the whole log was applied")
		}
	})
}
