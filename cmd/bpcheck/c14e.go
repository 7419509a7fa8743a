package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ownFact: f says whether element i of log belongs to the entry uuid.
func ownFact(f, log, uuid *Term) *Term {
	if f.op != OBin || f.tok != tokEQL {
		return nil
	}
	for k := 0; k < 2; k++ {
		a, b := f.args[k], f.args[1-k]
		if b != uuid {
			continue
		}
		if a.op == OField || a.op == OLoad && a.args[0].op == OFieldAddr {
			if typeFieldName(a) != "UUID" {
				continue
			}
		} else {
			continue
		}
		if l, i := txTimeOf(a); l == log {
			return i
		}
	}
	return nil
}

// typeFieldName is the name of the field a field load reads.
func typeFieldName(a *Term) string {
	x, idx := a.args[0], a.idx
	if a.op == OLoad {
		x, idx = a.args[0].args[0], a.args[0].idx
	}
	if x.typ == nil {
		return ""
	}
	t := deref(x.typ)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return ""
	}
	return structFieldName(t, idx)
}

// entryAt decides EntrySnapshotAt and NVersions: what was an entry n versions
// ago, and how many versions it has.
func (d *dbModel) entryAt(fn *ssa.Function, applies map[*ssa.Function]bool, count bool) {
	r := d.r
	var log, uuid, ago *Term
	c := &Client{}
	c.Inline = func(f *ssa.Function) (bool, bool) { return !applies[f], true }
	direct := false
	type viol struct {
		key, where, msg string
		trail           []string
	}
	var pend []viol
	bad := func(s *State, in ssa.Instruction, key, msg string) {
		r.Violate(d.rule, key+"|"+fnName(in.Parent()), r.P.instrPos(in), msg, s.Trail(12))
	}
	own := func(s *State, i *Term, want bool) bool {
		for f, v := range s.facts {
			if j := ownFact(f, log, uuid); j != nil && v == want && (j == i || s.eqInt(j, i)) {
				return true
			}
		}
		return false
	}
	settle := func(s *State, in ssa.Instruction) {
		if p, ok := s.cl["pend"]; ok && s.IsNil(p) {
			s.ghostSet("next", s.sim.T.addConst(s.ghostGet("next"), 1, intT))
			delete(s.cl, "pend")
		}
	}
	c.OnBackEdge = func(s *State, h *ssa.BasicBlock) {
		in := h.Instrs[0]
		T := s.sim.T
		settle(s, in)
		scan := s.ghostGet("scan")
		mine, other := own(s, scan, true), own(s, scan, false)
		if back := s.ghostGet("back"); count && !mine && !other {
			// the log looked at from its end
			at := T.addConst(back, -1, intT)
			if mine, other := own(s, at, true), own(s, at, false); mine || other {
				if mine {
					s.ghostSet("own", T.addConst(s.ghostGet("own"), 1, intT))
				}
				s.ghostSet("back", at)
			}
			return
		}
		if !mine && !other {
			return
		}
		app := s.cl["app"]
		r.Oblige(d.rule, "change looked at "+r.P.instrPos(in))
		if app != nil && other {
			bad(s, in, "collected", "a change of another entry is taken for one of this entry")
		}
		if app != nil {
			delete(s.cl, "app")
		} else if mine && !count {
			s.cl["skipped"] = T.True
		}
		if mine {
			s.ghostSet("own", T.addConst(s.ghostGet("own"), 1, intT))
		}
		s.ghostSet("scan", T.addConst(scan, 1, intT))
	}
	c.OnAppend = func(s *State, out *Term, in ssa.Instruction) {
		if out.op != OAppend || len(out.args) != 2 || out.typ == nil {
			return
		}
		el, ok := out.typ.Underlying().(*types.Slice)
		if !ok {
			return
		}
		switch {
		case isIntType(el.Elem()):
			r.Oblige(d.rule, "collected at "+r.P.instrPos(in))
			if !s.eqInt(out.args[1], s.ghostGet("scan")) || !own(s, out.args[1], true) {
				bad(s, in, "collected", "what is taken for a change of the entry is not known to be one: "+short(out.args[1]))
			}
			s.cl["app"] = s.sim.T.True
		case types.Identical(el.Elem(), d.r.P.typ("txlogs.Tx")):
			i := txIndex(out.args[1], log)
			r.Oblige(d.rule, "collected at "+r.P.instrPos(in))
			if i == nil || !s.eqInt(i, s.ghostGet("scan")) || !own(s, i, true) {
				bad(s, in, "collected", "what is taken for a change of the entry is not known to be one: "+short(out.args[1]))
			}
			s.cl["app"] = s.sim.T.True
		}
	}
	c.OnCall = func(ev *CallEv) {
		if ev.Fn == nil || !applies[ev.Fn] {
			return
		}
		s := ev.S
		settle(s, ev.Instr)
		di, ti := d.applyArgs(ev.Fn)
		r.Oblige(d.rule, "apply at "+r.P.instrPos(ev.Instr))
		if _, ok := s.cl["pend"]; ok {
			bad(s, ev.Instr, "unchecked", "the next change is applied although the one before may have failed")
		}
		if b := ev.Args[di]; b.op != OMake {
			bad(s, ev.Instr, "target", "the changes are applied to something else than a new snapshot")
		} else if cur, ok := s.cl["target"]; ok && cur != b {
			bad(s, ev.Instr, "target", "the changes are applied to more than one snapshot")
		} else {
			s.cl["target"] = b
		}
		next := s.ghostGet("next")
		i := txIndex(ev.Args[ti], log)
		if i == nil {
			// an element of the changes collected
			if j := elemIndex(ev.Args[ti]); j != nil {
				if !s.eqInt(j, next) {
					pend = append(pend, viol{"order|" + fnName(fn), r.P.instrPos(ev.Instr), "change " + short(j) + " of the entry is applied but " + short(next) + " were applied so far", s.Trail(12)})
				}
				return
			}
			bad(s, ev.Instr, "source", "what is applied is not an entry of the log: "+short(ev.Args[ti]))
			return
		}
		if i.op == OLoad && i.args[0].op == OIndexAddr {
			if !s.eqInt(i.args[0].args[1], next) {
				pend = append(pend, viol{"order|" + fnName(fn), r.P.instrPos(ev.Instr), "change " + short(i.args[0].args[1]) + " of the entry is applied but " + short(next) + " were applied so far", s.Trail(12)})
			}
			return
		}
		direct = true
		if !own(s, i, true) {
			bad(s, ev.Instr, "other", "a change is applied that is not known to be one of the entry asked for")
		}
		if !s.ProveLE(s.sim.T.addConst(s.ghostGet("last"), 1, intT), i) {
			bad(s, ev.Instr, "order", "the changes of the entry are not applied one after the other")
		} else {
			s.ghostSet("last", i)
		}
	}
	c.OnResult = func(ev *CallEv, res *Term) {
		if ev.Fn != nil && applies[ev.Fn] {
			ev.S.cl["pend"] = res
		}
	}
	d.run(fn, c, func(s *State, p []*Term, v0 dbVals) {
		log, uuid = v0.log, p[1]
		if !count {
			ago = p[2]
		}
		s.ghostSet("next", s.sim.T.Zero)
		s.ghostSet("own", s.sim.T.Zero)
		s.ghostSet("scan", s.sim.T.Zero)
		s.ghostSet("last", s.sim.T.Int(-1))
		s.ghostSet("back", s.sim.T.Len(log))
	}, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		settle(s, in)
		where := r.P.instrPos(in)
		r.Oblige(d.rule, "return at "+where)
		if out != in0 {
			bad(s, in, "changed", "looking at the history changes the log or the current entries")
		}
		if count {
			if !s.ProveLE(T.Len(log), s.ghostGet("scan")) && !s.ProveLE(s.ghostGet("back"), T.Zero) {
				bad(s, in, "whole", "the versions of an entry are counted without looking at the whole log")
			} else if !s.eqInt(res[0], s.ghostGet("own")) {
				bad(s, in, "count", "the number returned ("+short(res[0])+") is not the number of changes of the entry ("+short(s.ghostGet("own"))+")")
			}
			return
		}
		err := res[len(res)-1]
		if p, ok := s.cl["pend"]; ok {
			if !s.NonNil(p) {
				bad(s, in, "unchecked", "the result of applying a change is not looked at")
			} else if !s.NonNil(err) {
				bad(s, in, "swallowed", "a change failed to apply but success is reported")
			}
		}
		if s.NonNil(err) {
			return
		}
		x := res[0]
		if x.op == OExtract {
			x = x.args[0]
		}
		if x.op != OLookup || x.args[0].op != OMake || x.args[1] != uuid {
			bad(s, in, "result", "what is returned is not the entry of the snapshot built from the log: "+short(x))
		} else if tg, ok := s.cl["target"]; ok && tg != x.args[0] {
			bad(s, in, "result", "the entry returned is not from the snapshot built")
		}
		next, all := s.ghostGet("next"), s.ghostGet("own")
		if s.cl["skipped"] != nil || !s.ProveLE(T.Len(log), s.ghostGet("scan")) {
			pend = append(pend, viol{"whole|" + fnName(fn), where, "changes of the entry can be missed", s.Trail(12)})
		} else if !s.eqInt(next, T.Bin(tokSUB, all, ago, intT)) {
			pend = append(pend, viol{"count|" + fnName(fn), where, "the number of changes applied (" + short(next) + ") is not the number of changes of the entry (" + short(all) + ") less the versions to go back", s.Trail(12)})
		}
	})
	if !direct {
		for _, v := range pend {
			r.Violate(d.rule, v.key, v.where, v.msg, v.trail)
		}
	}
}

// elemIndex: t is the element i of some slice of transactions.
func elemIndex(t *Term) *Term {
	if t.op == OLoad && t.args[0].op == OIndexAddr {
		return t.args[0].args[1]
	}
	if t.op == OStruct && len(t.args) > 0 {
		f := t.args[0]
		if f.op == OLoad && f.args[0].op == OFieldAddr && f.args[0].args[0].op == OIndexAddr {
			return f.args[0].args[0].args[1]
		}
	}
	return nil
}
