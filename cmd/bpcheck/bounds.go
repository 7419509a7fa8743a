package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bounds is a client that proves index, slice, make and divide operations safe
// when the quantity involved depends on untrusted input.
type bounds struct {
	r       *Run
	rule    string
	all     bool               // judge also what no input influences
	tainted func(t *Term) bool // is this leaf/param/call term a source
	leafs   map[string]*leafTaint
	extra   func(s *State, ev *CallEv) // additional obligations at calls
	skip    func(fn *ssa.Function) bool
	// assume: an operation that is in range for a reason this analysis can't see
	assume func(s *State, in ssa.Instruction) string
}

var debugBounds = os.Getenv("BPCHECK_DEBUG") == "bounds"

type leafTaint struct{ val, length, content, elem bool }

// results whose length (or value, for BlockSize) does not depend on the bytes
// the function was given.
var fixedSize = map[string]bool{
	"golang.org/x/crypto/scrypt.Key": true, "golang.org/x/crypto/argon2.Key": true, "golang.org/x/crypto/argon2.IDKey": true,
	"golang.org/x/crypto/pbkdf2.Key": true, "(crypto/cipher.Block).BlockSize": true, "(hash.Hash).Size": true, "(hash.Hash).BlockSize": true,
	"crypto/sha256.Sum256": true, "crypto/sha512.Sum512": true,
}

func callOf(x *Term) *Term {
	for x.op == OExtract || x.op == OField {
		x = x.args[0]
	}
	return x
}

// elem: the lengths of the elements of a container depend on the input.
func (b *bounds) elem(s *State, x *Term) bool {
	switch x.op {
	case OAppend:
		for _, e := range x.args[1:] {
			if b.length(s, e) {
				return true
			}
		}
		return b.elem(s, x.args[0])
	case OAppendS:
		return b.elem(s, x.args[0]) || b.elem(s, x.args[1])
	case OMake, ONil:
		return false
	case OSlice:
		return b.elem(s, x.args[0])
	case OLeaf:
		lt := b.leafs[leafKey(x.leaf, s.sim.T)]
		return b.tainted(x) || lt != nil && lt.elem
	}
	return b.content(s, x)
}

func leafKey(l *leafID, t *Terms) string {
	return fmt.Sprintf("%d|%d|%s", l.ctx.id, t.objID(l.at), l.tag)
}

// content: the value is, or was computed from, untrusted bytes.
func (b *bounds) content(s *State, x *Term) bool {
	if b.tainted(x) {
		return true
	}
	if x.op == OLeaf {
		if lt := b.leafs[leafKey(x.leaf, s.sim.T)]; lt != nil && (lt.content || lt.val) {
			return true
		}
	}
	if x.op == OLen {
		return b.length(s, x.args[0])
	}
	if x.op == OLookup || x.op == OLookupOk {
		// the elements of a table are not chosen by the key
		return b.content(s, x.args[0])
	}
	for _, a := range x.args {
		if b.content(s, a) {
			return true
		}
	}
	return false
}

func (b *bounds) length(s *State, x *Term) bool {
	t := s.sim.T
	l := t.Len(x)
	if l.op == OLen {
		y := l.args[0]
		switch y.op {
		case OLeaf:
			lt := b.leafs[leafKey(y.leaf, t)]
			return b.tainted(y) || lt != nil && lt.length
		case OLoad:
			if a := y.args[0]; a.op == OIndexAddr {
				return b.elem(s, a.args[0])
			}
		}
		if fixedSize[callOf(y).name] {
			return false
		}
		return b.content(s, y)
	}
	return b.integer(s, l)
}

// integer: the value of an integer term depends on untrusted input.
func (b *bounds) integer(s *State, x *Term) bool {
	if x == nil || x.op == ONone {
		return false
	}
	lin := s.sim.T.linOf(x)
	for a := range lin.v {
		switch a.op {
		case OLen:
			if b.length(s, a.args[0]) {
				return true
			}
		case OLeaf:
			if lt := b.leafs[leafKey(a.leaf, s.sim.T)]; b.tainted(a) || lt != nil && lt.val {
				return true
			}
		case OPure:
			if a.name == "·" {
				for _, f := range a.args {
					if b.integer(s, f) {
						return true
					}
				}
				continue
			}
			if b.content(s, a) {
				return true
			}
		default:
			if fixedSize[callOf(a).name] {
				continue
			}
			if b.content(s, a) {
				return true
			}
		}
	}
	return false
}

func (b *bounds) mark(s *State, leaf *Term, vals ...*Term) {
	k := leafKey(leaf.leaf, s.sim.T)
	lt := b.leafs[k]
	if lt == nil {
		lt = &leafTaint{}
		b.leafs[k] = lt
	}
	for _, v := range vals {
		if v == nil || v.op == ONone {
			continue
		}
		if isIntType(leaf.typ) {
			lt.val = lt.val || b.integer(s, v)
			continue
		}
		if _, ok := leaf.typ.Underlying().(*types.Slice); ok {
			lt.elem = lt.elem || b.elem(s, v)
		}
		lt.content = lt.content || b.content(s, v)
		if isSliceOrString(leaf.typ) {
			lt.length = lt.length || b.length(s, v)
		} else {
			lt.length = lt.length || b.content(s, v)
		}
	}
}

// loopTainted: the loop's own condition depends on untrusted input.
func (b *bounds) loopTainted(s *State, h *ssa.BasicBlock) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !isIntType(c.X.Type()) {
		return false
	}
	v := func(x ssa.Value) *Term {
		if in, ok := x.(ssa.Instruction); ok && in.Block() == h {
			if ca, ok := x.(*ssa.Call); ok {
				if bi, ok := ca.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return s.sim.T.Len(s.val(ca.Common().Args[0]))
				}
			}
			if _, ok := s.top().env[x]; !ok {
				return nil
			}
		}
		return s.val(x)
	}
	for _, x := range []ssa.Value{c.X, c.Y} {
		if t := v(x); t != nil && b.integer(s, t) {
			return true
		}
	}
	return false
}

func (b *bounds) client() *Client {
	c := &Client{Name: "bounds", Houdini: true, KeepFacts: true}
	c.OnWiden = func(s *State, leaf *Term, h *ssa.BasicBlock, vals ...*Term) {
		b.mark(s, leaf, vals...)
		if (isIntType(leaf.typ) || isSliceOrString(leaf.typ)) && b.loopTainted(s, h) {
			lt := b.leafs[leafKey(leaf.leaf, s.sim.T)]
			if isIntType(leaf.typ) {
				lt.val = true
			} else {
				lt.length = true
			}
		}
	}
	c.OnInstr = func(s *State, in ssa.Instruction) { b.instr(s, in) }
	if b.extra != nil {
		c.OnCall = func(ev *CallEv) { b.extra(ev.S, ev) }
	}
	return c
}

func (b *bounds) prove(s *State, in ssa.Instruction, what string, oks ...bool) {
	fn := in.Parent()
	key := fnName(fn) + "|" + what
	b.r.Oblige(b.rule, fnName(fn)+" "+b.r.P.instrPos(in)+" "+kindOf(in))
	for _, ok := range oks {
		if !ok {
			if b.assume != nil {
				if why := b.assume(s, in); why != "" {
					b.r.Count("assumed: "+why, 1)
					return
				}
			}
			if debugBounds && strings.Contains(b.r.P.instrPos(in), os.Getenv("BPCHECK_AT")) {
				fmt.Println("UNPROVED", what, b.r.P.instrPos(in), oks)
				for _, op := range in.Operands(nil) {
					if *op != nil {
						v := s.val(*op)
						fmt.Println("   operand", v, " len", s.sim.T.Len(v))
					}
				}
				for _, c := range s.constraints() {
					fmt.Println("   0 <=", s.sim.T.linTerm(c))
				}
				debugBounds = false
			}
			b.r.Violate(b.rule, key, b.r.P.instrPos(in), fmt.Sprintf("%s can be out of range in %s (reached through %s): no check on this path bounds it for every input", what, fnName(fn), s.top().ctx), s.Trail(8))
			return
		}
	}
}

func kindOf(in ssa.Instruction) string {
	switch in.(type) {
	case *ssa.Slice:
		return "slice"
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		return "index"
	case *ssa.MakeSlice:
		return "make"
	case *ssa.BinOp:
		return "divide"
	case *ssa.TypeAssert:
		return "assert"
	}
	return "call"
}

func (b *bounds) instr(s *State, in ssa.Instruction) {
	t := s.sim.T
	if b.skip != nil && b.skip(in.Parent()) {
		return
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		b.index(s, in, s.val(x.X), s.val(x.Index))
	case *ssa.Index:
		b.index(s, in, s.val(x.X), s.val(x.Index))
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			b.index(s, in, s.val(x.X), s.val(x.Index))
		}
	case *ssa.Slice:
		base := s.val(x.X)
		lo, hi := t.Zero, t.Len(base)
		if x.Low != nil {
			lo = s.val(x.Low)
		}
		if x.High != nil {
			hi = s.val(x.High)
		}
		if !b.all && !b.length(s, base) && !b.integer(s, lo) && !b.integer(s, hi) {
			return
		}
		if x.Low == nil && x.High == nil {
			return
		}
		// the capacity could be larger; requiring the length is what the
		// code's own checks establish
		lim := t.Len(base)
		oks := []bool{s.ProveLE(t.Zero, lo), s.ProveLE(lo, hi), s.ProveLE(hi, lim)}
		b.prove(s, in, descr(in), oks...)
		s.after(t.Zero, lo)
		s.after(lo, hi)
		s.after(hi, lim)
	case *ssa.MakeSlice:
		n := s.val(x.Len)
		if !b.all && !b.integer(s, n) {
			return
		}
		b.prove(s, in, descr(in), s.ProveLE(t.Zero, n))
		s.after(t.Zero, n)
	case *ssa.BinOp:
		if (x.Op == token.REM || x.Op == token.QUO) && isIntType(x.Y.Type()) {
			y := s.val(x.Y)
			if !b.all && !b.integer(s, y) {
				return
			}
			b.prove(s, in, descr(in), s.ProveLT(t.Zero, y) || s.ProveLT(y, t.Zero) || s.Known(t.Eq(y, t.Zero), false))
		}
	}
}

func (b *bounds) index(s *State, in ssa.Instruction, base, i *Term) {
	t := s.sim.T
	n := t.Len(base)
	if T := base.typ; T != nil {
		u := T.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			n = t.Int(a.Len())
		}
	}
	if !b.all && !b.length(s, base) && !b.integer(s, i) {
		return
	}
	b.prove(s, in, descr(in), s.ProveLE(t.Zero, i), s.ProveLT(i, n))
	s.after(t.Zero, i)
	s.after(t.Bin(token.ADD, i, t.One, types.Typ[types.Int]), n)
}

// after records a <= b: execution only continues past the operation when it
// was in range.
func (s *State) after(a, b *Term) {
	l := s.sim.T.linOf(b).clone()
	l.add(s.sim.T.linOf(a), -1)
	if len(l.v) == 0 || s.Entails(l) {
		return
	}
	t := s.sim.T
	s.facts[t.mk(&Term{op: OBin, tok: token.LSS, args: []*Term{t.linTerm(l), t.Zero}, typ: types.Typ[types.Bool]})] = false
}

// descr names an operation in source terms, independent of its line.
func descr(in ssa.Instruction) string {
	nm := func(v ssa.Value) string {
		switch x := v.(type) {
		case nil:
			return ""
		case *ssa.Const:
			return x.Name()
		case *ssa.Parameter:
			return x.Name()
		case *ssa.Global:
			return x.Name()
		case *ssa.Phi:
			if x.Comment != "" {
				return x.Comment
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				k := string(fieldKeyOf(deref(fa.X.Type()), fa.Field))
				return k[strings.LastIndex(k, ".")+1:]
			}
			if al, ok := x.X.(*ssa.Alloc); ok && al.Comment != "" {
				return al.Comment
			}
		case *ssa.Call:
			return calleeName(x.Common()) + "(…)"
		case *ssa.Slice:
			return "a sub-slice"
		}
		return "…"
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return nm(x.X) + "[" + nm(x.Index) + "]"
	case *ssa.Index:
		return nm(x.X) + "[" + nm(x.Index) + "]"
	case *ssa.Lookup:
		return nm(x.X) + "[" + nm(x.Index) + "]"
	case *ssa.Slice:
		return nm(x.X) + "[" + nm(x.Low) + ":" + nm(x.High) + "]"
	case *ssa.MakeSlice:
		return "make(" + nm(x.Len) + ")"
	case *ssa.BinOp:
		return nm(x.X) + x.Op.String() + nm(x.Y)
	case ssa.CallInstruction:
		return calleeName(x.Common())
	}
	return "operation"
}
