package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15", Title: "the history is append-only and complete", Run: runC15,
		Explanation: "Add, Set, Delete and DeleteKey are executed abstractly from an arbitrary database: the log afterwards must be the log before with exactly one new entry holding the arguments and the current time. Every store, copy, append and library call on a slice of transactions in the program is examined: entries of a log that was not made in that function are never overwritten, reordered or cut except by the rollback functions. The serialised form is compared with the type: every field of a transaction is written and read back under its own name."})
}

func runC15(r *Run) {
	r.Rule("one-entry: each mutator appends exactly one transaction of its kind with its own arguments and the current time, and changes nothing else; if it fails nothing is appended")
	r.Rule("in-place: entries of a log are never overwritten, sorted, or written over by appending to a part of it, unless the slice was made in that function")
	r.Rule("log-writers: DB.Log is assigned only appended logs, rolled back prefixes, the result of a merge, or into a new database")
	r.Rule("serialised: every field of a transaction and the log itself is written to the file under a name of its own, read back under the same name, and no custom marshaller intervenes")
	r.Rule("save: Save serialises the database it is called on and returns that")
	d := newDBModel(r)
	if d == nil {
		return
	}
	txT := r.P.typ("txlogs.Tx")
	if txT == nil {
		r.Violate("anchor", "txlogs.Tx", "-", "the type txlogs.Tx is not in the source", nil)
		return
	}
	scope := r.P.ByPkg["txlogs"].Pkg.Scope()
	isNow := func(t *Term) bool {
		for n := 0; t != nil && n < 10; n++ {
			switch t.op {
			case OConvert, OExtract, OField, OStruct:
			case OCall, OPure:
				if strings.HasPrefix(t.name, "time.Now") {
					return true
				}
				if !strings.HasPrefix(t.name, "(time.Time).UnixNano") && !strings.HasPrefix(t.name, "(time.Time).UTC") && !strings.HasPrefix(t.name, "(time.Time).Local") {
					return false
				}
			default:
				return false
			}
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		}
		return false
	}
	sameCall := func(a, b *Term) bool {
		if a == b {
			return true
		}
		if a.op != b.op || a.op != OCall && a.op != OPure || a.name != b.name || len(a.args) != len(b.args) || !strings.HasSuffix(a.name, ".String") {
			return false
		}
		for i := range a.args {
			if a.args[i] != b.args[i] {
				return false
			}
		}
		return true
	}
	for _, spec := range []struct{ fn, kind string }{{"Add", "TxAdd"}, {"Set", "TxSetKey"}, {"Delete", "TxDelete"}, {"DeleteKey", "TxDeleteKey"}} {
		fn := r.Anchor("(*txlogs.DB)." + spec.fn)
		if fn == nil {
			return
		}
		kc, _ := scope.Lookup(spec.kind).(*types.Const)
		if kc == nil {
			r.Violate("anchor", spec.kind, "-", "the constant "+spec.kind+" is not in the source", nil)
			return
		}
		d.rule = "one-entry"
		d.run(fn, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
			T := s.sim.T
			r.Oblige("one-entry", spec.fn+" "+r.P.instrPos(in))
			bad := func(key, msg string) {
				r.Violate("one-entry", spec.fn+"|"+key, r.P.instrPos(in), msg, s.Trail(10))
			}
			if out.snap != in0.snap || out.ver != in0.ver || out.tx != in0.tx {
				bad("state", spec.fn+" changes the snapshot, its version or the transaction mark")
			}
			if i := errResult(fn.Signature); i >= 0 && !s.IsNil(res[i]) {
				if out.log != in0.log {
					bad("failed", spec.fn+" fails but has changed the log")
				}
				if !s.NonNil(res[i]) {
					bad("undecided", spec.fn+" returns an error that may be nil without having added the entry")
				}
				return
			}
			l := out.log
			if l.op != OAppend || len(l.args) != 2 || l.args[0] != in0.log {
				bad("count", spec.fn+" does not leave the log with exactly one more entry at its end: "+short(l))
				return
			}
			tx := l.args[1]
			get := func(f string) *Term { return s.fieldOf(tx, txT, f) }
			kind, uuid, key, val, tm := get("Kind"), get("UUID"), get("Key"), get("Value"), get("Time")
			if kind == nil || uuid == nil || key == nil || val == nil || tm == nil {
				bad("shape", "Tx no longer has Time, Kind, UUID, Key and Value")
				return
			}
			if kind != T.Const(kc.Val(), kc.Type()) && !s.Known(T.Eq(kind, T.Const(kc.Val(), kc.Type())), true) {
				bad("kind", spec.fn+" records a transaction of another kind: "+short(kind))
			}
			empty := func(x *Term) bool { v, ok := x.strVal(); return ok && v == "" || x.op == OZero }
			want := func(name string, got *Term, arg int) {
				if arg >= len(p) || arg < 0 {
					if !empty(got) {
						bad(name, spec.fn+" records a "+name+" that was not given")
					}
					return
				}
				if got != p[arg] {
					bad(name, spec.fn+" does not record the "+name+" it was given: "+short(got))
				}
			}
			switch spec.kind {
			case "TxAdd":
				if !sameCall(uuid, res[0]) || empty(uuid) {
					bad("uuid", "Add returns another uuid than the one it records")
				}
				if uuid.op != OCall && uuid.op != OPure && uuid.op != OExtract {
					bad("uuid-source", "the new entry's uuid is not generated: "+short(uuid))
				}
				want("key", key, -1)
				want("value", val, -1)
			case "TxSetKey":
				want("uuid", uuid, 1)
				want("key", key, 2)
				want("value", val, 3)
			case "TxDelete":
				want("uuid", uuid, 1)
				want("key", key, -1)
				want("value", val, -1)
			case "TxDeleteKey":
				want("uuid", uuid, 1)
				want("key", key, 2)
				want("value", val, -1)
			}
			if !isNow(tm) {
				bad("time", spec.fn+" does not record the current time: "+short(tm))
			}
		})
	}
	r.Need("one-entry", 4)
	d.inPlace(txT)
	d.logWriters()
	d.serialised(txT)
	d.rule = "save"
	if save := r.Anchor("(*txlogs.DB).Save"); save != nil {
		d.run(save, nil, nil, func(s *State, db *Term, p []*Term, in0, out dbVals, res []*Term, in ssa.Instruction) {
			r.Oblige("save", r.P.instrPos(in))
			if s.NonNil(res[1]) {
				return
			}
			t := res[0]
			for t.op == OExtract || t.op == OConvert {
				t = t.args[0]
			}
			if t.op != OCall && t.op != OPure || !strings.HasPrefix(t.name, "encoding/json.Marshal") || len(t.args) == 0 {
				r.Violate("save", "marshal", r.P.instrPos(in), "Save does not return what json made of the database: "+short(res[0]), s.Trail(8))
				return
			}
			x := t.args[0]
			for x.op == OIface {
				x = x.args[0]
			}
			if x.op == OAllocAddr && x.typ != nil {
				// a copy: it has the same log
				if types.Identical(deref(x.typ), d.db) && d.vals(s, x).log == in0.log {
					return
				}
			}
			if st, ok := structUnder(x.typ); ok && x.op == OStruct {
				for i := 0; i < st.NumFields(); i++ {
					n, _ := jsonName(st, i)
					ds, _ := structUnder(d.db)
					if want, _ := jsonName(ds, fieldIndex(d.db, "Log")); n == want && s.fieldOf(x, x.typ, st.Field(i).Name()) == in0.log {
						return
					}
				}
			}
			if x != p[0] {
				r.Violate("save", "subject", r.P.instrPos(in), "Save serialises something else than the database: "+short(x), s.Trail(8))
			}
			if !(out.log == in0.log) {
				r.Violate("save", "log", r.P.instrPos(in), "Save changes the log before serialising it", s.Trail(8))
			}
		})
		r.Need("save", 1)
	}
}

// txSlice: T is a slice of transactions.
func isSliceOf(T, elem types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), elem)
}

// freshSlice: the slice's memory was made in this function, or is the growing
// result of appending to such a slice.
func freshSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Alloc:
		_, isArr := deref(x.Type()).Underlying().(*types.Array)
		return isArr
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		return freshSlice(x.X, seen)
	case *ssa.ChangeType:
		return freshSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if calleeName(x.Common()) == "append" {
			return freshSlice(x.Common().Args[0], seen)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			v := lastStored(x, fa)
			return v != nil && freshSlice(v, seen)
		}
		// a local variable that only ever holds fresh slices
		return freshCell(x.X, seen)
	}
	return false
}

// lastStored is the value a field of a local struct holds when it is loaded
// at in: the one store to it that reaches in, nil if there is no such.
func lastStored(in ssa.Instruction, fa *ssa.FieldAddr) ssa.Value {
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	return reachingStore(in, al, fa.Field, 0)
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func reachingStore(in ssa.Instruction, at *ssa.Alloc, field, d int) ssa.Value {
	if d > 4 {
		return nil
	}
	var stores []*ssa.Store
	for _, r := range *at.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == at {
				stores = append(stores, x)
			}
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					stores = append(stores, st)
				}
			}
		}
	}
	var best *ssa.Store
	for _, st := range stores {
		if reaches(st, in, stores) {
			if best != nil {
				return nil
			}
			best = st
		}
	}
	if best == nil {
		return nil
	}
	if best.Addr != at {
		return best.Val
	}
	u, ok := best.Val.(*ssa.UnOp)
	if !ok {
		return nil
	}
	tmp, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	return reachingStore(u, tmp, field, d+1)
}

// reaches: control can get from a to b without another of the stores.
func reaches(a *ssa.Store, b ssa.Instruction, others []*ssa.Store) bool {
	stop := map[ssa.Instruction]bool{}
	for _, o := range others {
		stop[o] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(blk *ssa.BasicBlock, from int) bool
	scan = func(blk *ssa.BasicBlock, from int) bool {
		for _, x := range blk.Instrs[from:] {
			if x == b {
				return true
			}
			if stop[x] {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return scan(a.Block(), instrIndex(a)+1)
}

func freshCell(a ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := a.(type) {
	case *ssa.Alloc:
		return freshStores(x, x.Referrers(), seen)
	case *ssa.FreeVar:
		// the variable of the enclosing function
		p := x.Parent().Parent()
		if p == nil {
			return false
		}
		i := -1
		for n, f := range x.Parent().FreeVars {
			if f == x {
				i = n
			}
		}
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() && i >= 0 {
					if !freshCell(mc.Bindings[i], seen) {
						return false
					}
				}
			}
		}
		return freshStores(x, x.Referrers(), seen)
	}
	return false
}

func freshStores(a ssa.Value, refs *[]ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == a && !freshSlice(x.Val, seen) {
				return false
			}
			if x.Val == a {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == a {
					f := x.Fn.(*ssa.Function)
					if !freshStores(f.FreeVars[i], f.FreeVars[i].Referrers(), seen) {
						return false
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr:
		default:
			return false
		}
	}
	return true
}

func (d *dbModel) inPlace(txT types.Type) {
	r := d.r
	fresh := func(v ssa.Value) bool { return freshSlice(v, map[ssa.Value]bool{}) }
	cut := func(v ssa.Value) bool {
		for n := 0; n < 20; n++ {
			switch x := v.(type) {
			case *ssa.Slice:
				if x.High != nil {
					return true
				}
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return false
			}
		}
		return true
	}
	for _, f := range r.P.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				where := r.P.instrPos(in)
				switch x := in.(type) {
				case *ssa.Store:
					a := x.Addr
					for {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						a = fa.X
					}
					if ia, ok := a.(*ssa.IndexAddr); ok && isSliceOf(ia.X.Type(), txT) {
						r.Oblige("in-place", "store "+where)
						if !fresh(ia.X) {
							r.Violate("in-place", "store|"+fnName(f), where, "an entry of a log is overwritten in place", nil)
						}
						continue
					}
					if a != x.Addr && types.Identical(deref(a.Type()), txT) {
						// through a *Tx
						if _, ok := a.(*ssa.Alloc); !ok {
							if _, isC := a.(*ssa.FreeVar); !isC {
								r.Oblige("in-place", "pointer "+where)
								r.Violate("in-place", "pointer|"+fnName(f), where, "a transaction is changed through a pointer, it may be an entry of a log", nil)
							}
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					n := calleeName(c)
					for i, a := range c.Args {
						if !isSliceOf(a.Type(), txT) {
							if mi, ok := a.(*ssa.MakeInterface); !ok || !isSliceOf(mi.X.Type(), txT) {
								continue
							} else {
								a = mi.X
							}
						}
						switch {
						case n == "append":
							if i != 0 {
								continue
							}
							r.Oblige("in-place", "append "+where)
							if cut(a) && !fresh(a) {
								r.Violate("in-place", "append|"+fnName(f), where, "appending to a part of a log overwrites the entries after it", nil)
							}
						case n == "copy":
							if i != 0 {
								continue
							}
							r.Oblige("in-place", "copy "+where)
							if !fresh(a) {
								r.Violate("in-place", "copy|"+fnName(f), where, "entries of a log are overwritten by a copy", nil)
							}
						case n == "clear":
							r.Violate("in-place", "clear|"+fnName(f), where, "the entries of a log are cleared", nil)
						case n == "len" || n == "cap" || strings.HasPrefix(n, "ssa:") || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "encoding/json.Marshal"):
						default:
							g := c.StaticCallee()
							if g != nil && r.P.inModule[g] {
								continue
							}
							if len(r.P.callTargets(x)) > 0 && g == nil {
								continue
							}
							r.Oblige("in-place", "library "+where)
							if !fresh(a) {
								r.Violate("in-place", "library|"+fnName(f), where, "a log is handed to "+n+", which may change or reorder its entries", nil)
							}
						}
					}
				}
			}
		}
	}
	r.Need("in-place", 3)
}

func (d *dbModel) logWriters() {
	r := d.r
	li := fieldIndex(d.db, "Log")
	roll := map[*ssa.Function]bool{}
	for _, n := range []string{"Rollback", "RollbackN"} {
		if f := r.P.fn("(*txlogs.DB)." + n); f != nil {
			for g := range r.P.reach(f) {
				roll[g] = true
			}
		}
	}
	merge := r.P.fn("txlogs.Merge")
	var origin func(v ssa.Value, seen map[ssa.Value]bool) string
	origin = func(v ssa.Value, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return "nil"
		case *ssa.Slice:
			o := origin(x.X, seen)
			if x.Low == nil && x.High == nil {
				return o
			}
			return "part of " + o
		case *ssa.ChangeType:
			return origin(x.X, seen)
		case *ssa.MakeSlice:
			return "made"
		case *ssa.Call:
			if calleeName(x.Common()) == "append" {
				if origin(x.Common().Args[0], seen) == "log" {
					return "appended"
				}
				return "built"
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.Field == li && types.Identical(deref(fa.X.Type()), d.db) {
				return "log"
			}
			return "value"
		case *ssa.Field:
			return "value"
		}
		return "value"
	}
	_ = merge
	for _, f := range r.P.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != li || !types.Identical(deref(fa.X.Type()), d.db) {
					continue
				}
				where := r.P.instrPos(in)
				r.Oblige("log-writers", fnName(f)+" "+where)
				if al, ok := fa.X.(*ssa.Alloc); ok && al.Heap {
					continue
				}
				o := origin(st.Val, map[ssa.Value]bool{})
				switch {
				case o == "appended":
				case roll[f]:
				case pkgOf(f) == "txlogs":
					r.Violate("log-writers", fnName(f), where, "the log is replaced by something other than itself with entries appended ("+o+")", nil)
				case o == "part of log" && d.readOnlyHere(st):
				case o == "value":
				default:
					r.Violate("log-writers", fnName(f), where, "the log is cut or rebuilt outside rollback and merge ("+o+")", nil)
				}
			}
		}
	}
	r.Need("log-writers", 4)
}

// readOnlyHere: the block is only reached when a bool field readOnly is true.
func (d *dbModel) readOnlyHere(in ssa.Instruction) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		p := b.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		u, ok := iff.Cond.(*ssa.UnOp)
		if !ok {
			continue
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			st, _ := structUnder(deref(fa.X.Type()))
			if st.Field(fa.Field).Name() == "readOnly" && (b == p.Succs[0] || p.Succs[0].Dominates(b)) && len(p.Succs[0].Preds) == 1 {
				return true
			}
		}
	}
	return false
}

func jsonName(st *types.Struct, i int) (string, bool) {
	f := st.Field(i)
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n, opts, _ := strings.Cut(tag, ",")
	if !f.Exported() || n == "-" && opts == "" && !strings.Contains(tag, ",") {
		return "", false
	}
	if n == "" {
		n = f.Name()
	}
	return n, true
}

func (d *dbModel) serialised(txT types.Type) {
	r := d.r
	fields := func(T types.Type, all bool) map[string]string {
		st, _ := structUnder(T)
		out := map[string]string{}
		names := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			n, ok := jsonName(st, i)
			where := r.P.pos(st.Field(i).Pos())
			if !ok {
				if all {
					r.Oblige("serialised", T.String()+"."+st.Field(i).Name())
					r.Violate("serialised", st.Field(i).Name(), where, "the field "+st.Field(i).Name()+" of a transaction is not written to the file", nil)
				}
				continue
			}
			r.Oblige("serialised", T.String()+"."+st.Field(i).Name()+" as "+n)
			if names[strings.ToLower(n)] {
				r.Violate("serialised", "dup|"+n, where, "two fields are written under the same name "+n, nil)
			}
			names[strings.ToLower(n)] = true
			out[st.Field(i).Name()] = n
			if tag := reflect.StructTag(st.Tag(i)).Get("json"); strings.Contains(tag, ",string") {
				if b, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
					continue
				}
			}
		}
		return out
	}
	fields(txT, true)
	db := fields(d.db, false)
	if db["Log"] == "" {
		r.Violate("serialised", "Log", "-", "the log is not written to the file", nil)
	}
	// every struct that a file is read into and that has a log calls it the same
	for _, p := range r.P.Pkgs {
		if p.Types == nil {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, m := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Identical(tn.Type(), d.db) && !types.Identical(tn.Type(), txT) && n != "TxKind" && n != "Entry" {
					continue
				}
				ms := types.NewMethodSet(m)
				for i := 0; i < ms.Len(); i++ {
					switch ms.At(i).Obj().Name() {
					case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
						r.Violate("serialised", "marshaller|"+n, r.P.pos(ms.At(i).Obj().Pos()), "a custom marshaller changes what of the history is written", nil)
					}
				}
			}
		}
	}
	// what Unmarshal is given
	for _, f := range r.P.modFuncs() {
		if pkgOf(f) != "txlogs" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(calleeName(c.Common()), "encoding/json.") {
					continue
				}
				for _, a := range c.Common().Args {
					mi, ok := a.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					T := mi.X.Type()
					for i := 0; i < 3; i++ {
						if p, ok := T.Underlying().(*types.Pointer); ok {
							T = p.Elem()
						}
					}
					if st, ok := structUnder(T); ok && !types.Identical(T, d.db) {
						for i := 0; i < st.NumFields(); i++ {
							if isSliceOf(st.Field(i).Type(), txT) {
								n, _ := jsonName(st, i)
								r.Oblige("serialised", T.String()+"."+st.Field(i).Name()+" as "+n)
								if n != db["Log"] {
									r.Violate("serialised", "name|"+T.String(), r.P.instrPos(in), "the log is written as "+db["Log"]+" but read as "+n, nil)
								}
							}
						}
					}
				}
			}
		}
	}
	r.Need("serialised", 7)
}
