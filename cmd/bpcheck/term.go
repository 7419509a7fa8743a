package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of a symbolic term.
type Op uint8

const (
	OConst Op = iota // bool/int/string/float constant
	ONil
	OZero      // zero value of a non-struct composite type
	OLeaf      // value produced by (ctx, instr, gen, tag)
	OParam     // parameter of the analysis root
	OGlobal    // address of a package level variable
	OFunc      // function value
	OClosure   // function + bindings
	OFieldAddr // &base.f
	OIndexAddr // &base[i]
	OStruct    // struct value
	OField     // field of an opaque struct value
	OIndex     // element of array/string value
	OLookup    // m[k]
	OLookupOk  // _, ok := m[k]
	OLen       // len(x)
	OCap       // cap(x)
	OBin       // binary arithmetic / comparison
	ONot       // boolean negation
	ONeg       // arithmetic negation
	OSlice     // x[lo:hi]
	OConvert   // conversion that changes representation
	OIface     // interface value of known dynamic type
	OAssert    // x.(T)
	OAssertOk  // _, ok := x.(T)
	OMake      // make([]T, n) / make(map) ; identity leaf + length
	OCall      // result of an opaque call, keeps the argument terms
	OExtract   // i-th component of a tuple
	OTuple     // multi value
	OPure      // pure function of its arguments
	OLoad      // initial memory content at an address (epoch)
	OAppend    // append(base, elems...)
	OAppendS   // append(base, slice...)
	OConcat    // string concatenation
	OSentinel  // package level error value that is assigned once
	ONone      // absent optional
	OAny       // unknown value (widened)
	OAllocAddr // address of an allocation
)

var opNames = map[Op]string{OConst: "const", ONil: "nil", OZero: "zero", OLeaf: "leaf", OParam: "param", OGlobal: "global", OFunc: "func", OClosure: "closure", OFieldAddr: "fieldaddr", OIndexAddr: "indexaddr", OStruct: "struct", OField: "field", OIndex: "index", OLookup: "lookup", OLookupOk: "lookupok", OLen: "len", OCap: "cap", OBin: "bin", ONot: "not", ONeg: "neg", OSlice: "slice", OConvert: "convert", OIface: "iface", OAssert: "assert", OAssertOk: "assertok", OMake: "make", OCall: "call", OExtract: "extract", OTuple: "tuple", OPure: "pure", OLoad: "load", OAppend: "append", OAppendS: "appends", OConcat: "concat", OSentinel: "sentinel", ONone: "none", OAny: "any", OAllocAddr: "alloc"}

// leafID identifies a program point instance that produced a value.
type leafID struct {
	ctx *Ctx
	at  any // ssa.Instruction, *ssa.BasicBlock or ssa.Value
	gen int
	tag string
}

// Term is an immutable hash-consed symbolic value.
type Term struct {
	id    int
	op    Op
	args  []*Term
	typ   types.Type
	cv    constant.Value
	tok   token.Token
	idx   int
	name  string
	obj   any // *ssa.Function, *ssa.Global, types.Type
	leaf  *leafID
	leafs []int // sorted ids of leaf-bearing terms inside
	depth int
}

// Terms is a hash-consing factory.
type Terms struct {
	tab    map[string]*Term
	list   []*Term
	objIDs map[any]int
	Nil    *Term
	None   *Term
	True   *Term
	False  *Term
	Zero   *Term
	One    *Term
}

func newTerms() *Terms {
	t := &Terms{tab: map[string]*Term{}, objIDs: map[any]int{}}
	t.Nil = t.mk(&Term{op: ONil})
	t.None = t.mk(&Term{op: ONone})
	t.True = t.mk(&Term{op: OConst, cv: constant.MakeBool(true), typ: types.Typ[types.Bool]})
	t.False = t.mk(&Term{op: OConst, cv: constant.MakeBool(false), typ: types.Typ[types.Bool]})
	t.Zero = t.Int(0)
	t.One = t.Int(1)
	return t
}

func (t *Terms) objID(o any) int {
	if o == nil {
		return 0
	}
	if id, ok := t.objIDs[o]; ok {
		return id
	}
	id := len(t.objIDs) + 1
	t.objIDs[o] = id
	return id
}

func (t *Terms) mk(x *Term) *Term {
	b := make([]byte, 0, 64)
	num := func(n int) {
		b = strconv.AppendInt(b, int64(n), 10)
		b = append(b, '|')
	}
	num(int(x.op))
	num(int(x.tok))
	num(x.idx)
	b = append(b, x.name...)
	b = append(b, '|')
	num(t.objID(x.obj))
	if x.cv != nil {
		b = append(b, 'c')
		num(int(x.cv.Kind()))
		b = append(b, x.cv.ExactString()...)
	}
	if x.leaf != nil {
		b = append(b, 'L')
		num(x.leaf.ctx.id)
		num(t.objID(x.leaf.at))
		num(x.leaf.gen)
		b = append(b, x.leaf.tag...)
	}
	for _, a := range x.args {
		b = append(b, ';')
		num(a.id)
	}
	k := string(b)
	if e, ok := t.tab[k]; ok {
		return e
	}
	x.id = len(t.list)
	seen := map[int]bool{}
	for _, a := range x.args {
		if a.depth+1 > x.depth {
			x.depth = a.depth + 1
		}
		for _, l := range a.leafs {
			if !seen[l] {
				seen[l] = true
				x.leafs = append(x.leafs, l)
			}
		}
	}
	if x.leaf != nil && !seen[x.id] {
		x.leafs = append(x.leafs, x.id)
	}
	sort.Ints(x.leafs)
	t.list = append(t.list, x)
	t.tab[k] = x
	return x
}

func (x *Term) hasLeaf(id int) bool {
	i := sort.SearchInts(x.leafs, id)
	return i < len(x.leafs) && x.leafs[i] == id
}

func (t *Terms) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return t.Nil
	}
	// type is dropped on purpose except for kind, so that equal values unify
	return t.mk(&Term{op: OConst, cv: v, typ: typ})
}
func (t *Terms) Int(n int64) *Term {
	return t.mk(&Term{op: OConst, cv: constant.MakeInt64(n), typ: types.Typ[types.Int]})
}
func (t *Terms) Str(s string) *Term {
	return t.mk(&Term{op: OConst, cv: constant.MakeString(s), typ: types.Typ[types.String]})
}
func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *Terms) Leaf(id leafID, typ types.Type) *Term {
	return t.mk(&Term{op: OLeaf, leaf: &id, typ: typ})
}
func (t *Terms) Alloc(id leafID, typ types.Type) *Term {
	return t.mk(&Term{op: OAllocAddr, leaf: &id, typ: typ})
}
func (t *Terms) Make(id leafID, typ types.Type, n *Term) *Term {
	return t.mk(&Term{op: OMake, leaf: &id, typ: typ, args: []*Term{n}})
}
func (t *Terms) CallT(id leafID, name string, args []*Term, typ types.Type) *Term {
	return t.mk(&Term{op: OCall, leaf: &id, name: name, args: args, typ: typ})
}
func (t *Terms) Param(i int, fn *ssa.Function, typ types.Type) *Term {
	return t.mk(&Term{op: OParam, idx: i, obj: fn, typ: typ})
}
func (t *Terms) Global(g *ssa.Global) *Term {
	return t.mk(&Term{op: OGlobal, obj: g, typ: g.Type()})
}
func (t *Terms) Func(f *ssa.Function) *Term { return t.mk(&Term{op: OFunc, obj: f, typ: f.Type()}) }
func (t *Terms) Closure(f *ssa.Function, b []*Term) *Term {
	return t.mk(&Term{op: OClosure, obj: f, args: b, typ: f.Type()})
}
func (t *Terms) FieldAddr(base *Term, i int, st types.Type, typ types.Type) *Term {
	return t.mk(&Term{op: OFieldAddr, args: []*Term{base}, idx: i, name: typeKey(st), obj: fieldKeyOf(st, i), typ: typ})
}
func (t *Terms) IndexAddr(base, i *Term, typ types.Type) *Term {
	for base.op == OSlice && base.typ != nil {
		if _, isStr := base.typ.Underlying().(*types.Basic); isStr {
			break
		}
		i = t.Bin(token.ADD, base.args[1], i, intT)
		base = base.args[0]
	}
	return t.mk(&Term{op: OIndexAddr, args: []*Term{base, i}, typ: typ})
}
func (t *Terms) Struct(typ types.Type, fs []*Term) *Term {
	return t.mk(&Term{op: OStruct, name: typeKey(typ), typ: typ, args: fs})
}
func (t *Terms) Field(x *Term, i int, typ types.Type) *Term {
	if x.op == OStruct {
		return x.args[i]
	}
	return t.mk(&Term{op: OField, args: []*Term{x}, idx: i, typ: typ})
}
func (t *Terms) Pure(name string, typ types.Type, args ...*Term) *Term {
	return t.mk(&Term{op: OPure, name: name, args: args, typ: typ})
}
func (t *Terms) Tuple(args ...*Term) *Term { return t.mk(&Term{op: OTuple, args: args}) }
func (t *Terms) Extract(x *Term, i int, typ types.Type) *Term {
	if x.op == OTuple {
		return x.args[i]
	}
	return t.mk(&Term{op: OExtract, args: []*Term{x}, idx: i, typ: typ})
}
func (t *Terms) Iface(x *Term, from types.Type) *Term {
	if x.op == ONil && types.IsInterface(from) {
		return x
	}
	return t.mk(&Term{op: OIface, args: []*Term{x}, name: typeKey(from), obj: nil, typ: from})
}
func (t *Terms) Lookup(m, k, epoch *Term, typ types.Type) *Term {
	return t.mk(&Term{op: OLookup, args: []*Term{m, k, epoch}, typ: typ})
}
func (t *Terms) LookupOk(m, k, epoch *Term) *Term {
	return t.mk(&Term{op: OLookupOk, args: []*Term{m, k, epoch}, typ: types.Typ[types.Bool]})
}
func (t *Terms) Load(addr, epoch *Term, typ types.Type) *Term {
	return t.mk(&Term{op: OLoad, args: []*Term{addr, epoch}, typ: typ})
}

func typeKey(T types.Type) string {
	if T == nil {
		return "?"
	}
	return trimMod(types.TypeString(T, nil))
}

const modPath = "github.com/aarondl/bpass"

func trimMod(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "main.")
	return s
}

// fieldKey is "pkg.Type.field", the unit of memory havoc.
type fieldKey string

func fieldKeyOf(st types.Type, i int) fieldKey {
	if p, ok := st.Underlying().(*types.Pointer); ok {
		st = p.Elem()
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return fieldKey(typeKey(st))
	}
	return fieldKey(typeKey(st) + "." + s.Field(i).Name())
}

func (x *Term) isConst() bool { return x.op == OConst }
func (x *Term) isBool(b bool) bool {
	return x.op == OConst && x.cv.Kind() == constant.Bool && constant.BoolVal(x.cv) == b
}
func (x *Term) intVal() (int64, bool) {
	if x.op == OConst && x.cv.Kind() == constant.Int {
		return constant.Int64Val(x.cv)
	}
	return 0, false
}
func (x *Term) strVal() (string, bool) {
	if x.op == OConst && x.cv.Kind() == constant.String {
		return constant.StringVal(x.cv), true
	}
	return "", false
}

func isStringType(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// neverNil reports terms that cannot be nil.
func (x *Term) neverNil() bool {
	switch x.op {
	case OAllocAddr, OGlobal, OFunc, OClosure, OFieldAddr, OIndexAddr, OIface, OMake, OSentinel, OConst, OStruct:
		return true
	case OPure, OCall:
		switch x.name {
		case "errors.New", "fmt.Errorf":
			return true
		}
	}
	return false
}

func (t *Terms) Not(x *Term) *Term {
	if x.op == ONot {
		return x.args[0]
	}
	if x.isBool(true) {
		return t.False
	}
	if x.isBool(false) {
		return t.True
	}
	return t.mk(&Term{op: ONot, args: []*Term{x}, typ: types.Typ[types.Bool]})
}

func (t *Terms) Len(x *Term) *Term {
	switch x.op {
	case OConst:
		if s, ok := x.strVal(); ok {
			return t.Int(int64(len(s)))
		}
	case ONil:
		return t.Zero
	case OZero:
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return t.Int(a.Len())
		}
		if isStringType(x.typ) {
			return t.Zero
		}
	case OMake:
		if _, ok := x.typ.Underlying().(*types.Slice); ok {
			return x.args[0]
		}
	case OSlice:
		hi := x.args[2]
		if hi == t.None {
			hi = t.Len(x.args[0])
		}
		return t.Bin(token.SUB, hi, x.args[1], types.Typ[types.Int])
	case OConvert:
		if isStringType(x.typ) && isByteSlice(x.args[0].typ) || isByteSlice(x.typ) && isStringType(x.args[0].typ) {
			return t.Len(x.args[0])
		}
		if isStringType(x.typ) && isStringType(x.args[0].typ) {
			return t.Len(x.args[0])
		}
	case OAppend:
		return t.Bin(token.ADD, t.Len(x.args[0]), t.Int(int64(len(x.args)-1)), types.Typ[types.Int])
	case OAppendS:
		return t.Bin(token.ADD, t.Len(x.args[0]), t.Len(x.args[1]), types.Typ[types.Int])
	case OConcat:
		return t.Bin(token.ADD, t.Len(x.args[0]), t.Len(x.args[1]), types.Typ[types.Int])
	}
	if x.typ != nil {
		T := x.typ.Underlying()
		if p, ok := T.(*types.Pointer); ok {
			T = p.Elem().Underlying()
		}
		if a, ok := T.(*types.Array); ok {
			return t.Int(a.Len())
		}
	}
	return t.mk(&Term{op: OLen, args: []*Term{x}, typ: types.Typ[types.Int]})
}

func isByteSlice(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (t *Terms) Bin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.NEQ:
		return t.Not(t.Bin(token.EQL, a, b, typ))
	case token.GTR:
		return t.Bin(token.LSS, b, a, typ)
	case token.LEQ:
		return t.Not(t.Bin(token.LSS, b, a, typ))
	case token.GEQ:
		return t.Not(t.Bin(token.LSS, a, b, typ))
	case token.EQL:
		return t.Eq(a, b)
	}
	if a.isConst() && b.isConst() && a.cv.Kind() == b.cv.Kind() || a.isConst() && b.isConst() && (op == token.SHL || op == token.SHR) {
		if r := foldConst(op, a, b); r != nil {
			if r.Kind() == constant.Bool {
				return t.Bool(constant.BoolVal(r))
			}
			return t.Const(r, typ)
		}
	}
	bt := types.Typ[types.Bool]
	switch op {
	case token.LSS:
		if a == b {
			return t.False
		}
		// len(x) < 1  ==  len(x) == 0 ; 0 < len(x) == len(x) != 0
		if n, ok := b.intVal(); ok && n == 1 && a.nonNegInt() {
			return t.Eq(a, t.Zero)
		}
		if n, ok := a.intVal(); ok && n == 0 && b.nonNegInt() {
			return t.Not(t.Eq(b, t.Zero))
		}
		if n, ok := b.intVal(); ok && n <= 0 && a.nonNegInt() {
			return t.False
		}
		if n, ok := a.intVal(); ok && n < 0 && b.nonNegInt() {
			return t.True
		}
		return t.mk(&Term{op: OBin, tok: op, args: []*Term{a, b}, typ: bt})
	case token.ADD:
		if isStringType(typ) {
			if s, ok := a.strVal(); ok && s == "" {
				return b
			}
			if s, ok := b.strVal(); ok && s == "" {
				return a
			}
			return t.mk(&Term{op: OConcat, args: []*Term{a, b}, typ: typ})
		}
		if n, ok := a.intVal(); ok && n == 0 {
			return b
		}
		if n, ok := b.intVal(); ok && n == 0 {
			return a
		}
		// (x + c1) + c2, (x - c1) + c2
		if n, ok := b.intVal(); ok && !isUnsigned(typ) && a.op == OBin && (a.tok == token.ADD || a.tok == token.SUB) {
			if m, ok := a.args[1].intVal(); ok {
				if a.tok == token.SUB {
					m = -m
				}
				return t.addConst(a.args[0], m+n, typ)
			}
		}
	case token.SUB:
		if n, ok := b.intVal(); ok && n == 0 {
			return a
		}
		if a == b {
			return t.Zero
		}
		if n, ok := b.intVal(); ok && !isUnsigned(typ) && a.op == OBin && (a.tok == token.ADD || a.tok == token.SUB) {
			if m, ok := a.args[1].intVal(); ok {
				if a.tok == token.SUB {
					m = -m
				}
				return t.addConst(a.args[0], m-n, typ)
			}
		}
	case token.MUL:
		if n, ok := a.intVal(); ok && n == 1 {
			return b
		}
		if n, ok := b.intVal(); ok && n == 1 {
			return a
		}
	}
	return t.mk(&Term{op: OBin, tok: op, args: []*Term{a, b}, typ: typ})
}

func (t *Terms) addConst(x *Term, n int64, typ types.Type) *Term {
	if n == 0 {
		return x
	}
	if n > 0 {
		return t.mk(&Term{op: OBin, tok: token.ADD, args: []*Term{x, t.Int(n)}, typ: typ})
	}
	return t.mk(&Term{op: OBin, tok: token.SUB, args: []*Term{x, t.Int(-n)}, typ: typ})
}

func (x *Term) nonNegInt() bool {
	switch x.op {
	case OLen, OCap:
		return true
	case OConst:
		n, ok := x.intVal()
		return ok && n >= 0
	}
	return isUnsigned(x.typ)
}

func foldConst(op token.Token, a, b *Term) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.LSS:
		return constant.MakeBool(constant.Compare(a.cv, op, b.cv))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b.cv)
		if !ok || n > 128 {
			return nil
		}
		return constant.Shift(a.cv, op, uint(n))
	case token.QUO:
		if a.cv.Kind() == constant.Int {
			if constant.Sign(b.cv) == 0 {
				return nil
			}
			return constant.BinaryOp(a.cv, token.QUO_ASSIGN, b.cv)
		}
		return constant.BinaryOp(a.cv, op, b.cv)
	case token.REM:
		if constant.Sign(b.cv) == 0 {
			return nil
		}
		return constant.BinaryOp(a.cv, op, b.cv)
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		return constant.BinaryOp(a.cv, op, b.cv)
	}
	return nil
}

// Eq builds the canonical equality term.
func (t *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.isConst() && b.isConst() {
		if a.cv.Kind() == b.cv.Kind() {
			return t.Bool(constant.Compare(a.cv, token.EQL, b.cv))
		}
	}
	if a.isBool(true) {
		return b
	}
	if b.isBool(true) {
		return a
	}
	if a.isBool(false) {
		return t.Not(b)
	}
	if b.isBool(false) {
		return t.Not(a)
	}
	if a.op == ONil && b.neverNil() || b.op == ONil && a.neverNil() {
		return t.False
	}
	if a.op == OSentinel && b.op == OSentinel {
		return t.False
	}
	// distinct identities
	if a.op == OSentinel && (b.op == OPure || b.op == OCall) && b.neverNil() || b.op == OSentinel && (a.op == OPure || a.op == OCall) && a.neverNil() {
		return t.False
	}
	if a.op == OIface && b.op == OSentinel || b.op == OIface && a.op == OSentinel {
		return t.False
	}
	if a.op == OIface && b.op == OIface {
		if a.name != b.name {
			return t.False
		}
		return t.Eq(a.args[0], b.args[0])
	}
	if a.op == OAllocAddr && b.op == OAllocAddr || a.op == OGlobal && b.op == OGlobal || (a.op == OGlobal && b.op == OAllocAddr) || (a.op == OAllocAddr && b.op == OGlobal) {
		return t.False
	}
	if s, ok := a.strVal(); ok && s == "" {
		return t.Eq(t.Len(b), t.Zero)
	}
	if s, ok := b.strVal(); ok && s == "" {
		return t.Eq(t.Len(a), t.Zero)
	}
	if a.op == OStruct && b.op == OStruct && a.name == b.name && len(a.args) == 1 {
		return t.Eq(a.args[0], b.args[0])
	}
	if n, ok := a.intVal(); ok && n < 0 && b.nonNegInt() {
		return t.False
	}
	if n, ok := b.intVal(); ok && n < 0 && a.nonNegInt() {
		return t.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(&Term{op: OBin, tok: token.EQL, args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func (t *Terms) Slice(x, lo, hi *Term, typ types.Type) *Term {
	if lo == nil || lo == t.None {
		lo = t.Zero
	}
	if hi == nil {
		hi = t.None
	}
	if n, ok := lo.intVal(); ok && n == 0 && (hi == t.None || hi == t.Len(x)) {
		_, isArrPtr := x.typ, false
		if x.typ != nil {
			if p, ok := x.typ.Underlying().(*types.Pointer); ok {
				_, isArrPtr = p, true
			}
		}
		if !isArrPtr {
			return x
		}
	}
	if s, ok := x.strVal(); ok {
		l, ok1 := lo.intVal()
		h := int64(len(s))
		ok2 := true
		if hi != t.None {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return t.Str(s[l:h])
		}
	}
	// slice of slice composes
	if x.op == OSlice && x.args[0].typ != nil {
		it := types.Typ[types.Int]
		nlo := t.Bin(token.ADD, x.args[1], lo, it)
		nhi := x.args[2]
		if hi != t.None {
			nhi = t.Bin(token.ADD, x.args[1], hi, it)
		}
		return t.mk(&Term{op: OSlice, args: []*Term{x.args[0], nlo, nhi}, typ: typ})
	}
	return t.mk(&Term{op: OSlice, args: []*Term{x, lo, hi}, typ: typ})
}

// Subst replaces terms according to m (by id), rebuilding through the
// simplifying constructors.
func (t *Terms) Subst(x *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[x.id]; ok {
		return r
	}
	if len(x.leafs) == 0 {
		return x
	}
	hit := false
	for k := range m {
		if x.hasLeaf(k) {
			hit = true
			break
		}
	}
	if !hit {
		return x
	}
	if r, ok := memo[x.id]; ok {
		return r
	}
	args := make([]*Term, len(x.args))
	for i, a := range x.args {
		args[i] = t.Subst(a, m, memo)
	}
	r := t.rebuild(x, args)
	memo[x.id] = r
	return r
}

func (t *Terms) rebuild(x *Term, args []*Term) *Term {
	switch x.op {
	case OBin:
		return t.Bin(x.tok, args[0], args[1], x.typ)
	case ONot:
		return t.Not(args[0])
	case OLen:
		return t.Len(args[0])
	case OSlice:
		return t.Slice(args[0], args[1], args[2], x.typ)
	case OExtract:
		return t.Extract(args[0], x.idx, x.typ)
	case OField:
		return t.Field(args[0], x.idx, x.typ)
	}
	y := *x
	y.args = args
	y.leafs = nil
	y.depth = 0
	if y.leaf != nil {
		l := *y.leaf
		y.leaf = &l
	}
	return t.mk(&y)
}

func (x *Term) String() string { return x.str(0) }

func (x *Term) str(d int) string {
	if x == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range x.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	g := ""
	if x.leaf != nil && x.leaf.gen > 0 {
		g = "'"
	}
	switch x.op {
	case OConst:
		return x.cv.String()
	case ONil:
		return "nil"
	case OParam:
		if f, ok := x.obj.(*ssa.Function); ok && x.idx < len(f.Params) {
			return f.Params[x.idx].Name()
		}
		return fmt.Sprintf("param%d", x.idx)
	case OGlobal:
		return "&" + x.obj.(*ssa.Global).Name()
	case OSentinel:
		return x.name
	case OFunc, OClosure:
		return "func:" + x.obj.(*ssa.Function).Name()
	case OFieldAddr:
		fk := string(x.obj.(fieldKey))
		return "&" + strings.TrimPrefix(x.args[0].str(d+1), "&") + fk[strings.LastIndex(fk, "."):]
	case OLoad:
		return strings.TrimPrefix(x.args[0].str(d+1), "&")
	case OLeaf:
		nm := "v"
		switch a := x.leaf.at.(type) {
		case ssa.Value:
			nm = a.Name()
			if p, ok := a.(*ssa.Phi); ok && p.Comment != "" {
				nm = p.Comment
			}
		}
		if x.leaf.tag != "" {
			nm += ":" + x.leaf.tag
		}
		return nm + g
	case OAllocAddr:
		if a, ok := x.leaf.at.(*ssa.Alloc); ok && a.Comment != "" {
			return "&" + a.Comment + g
		}
		return "&alloc" + g
	case OCall:
		return x.name + g + "(" + as() + ")"
	case OPure:
		return x.name + "(" + as() + ")"
	case OExtract:
		return x.args[0].str(d+1) + fmt.Sprintf("#%d", x.idx)
	case OBin:
		return "(" + x.args[0].str(d+1) + " " + x.tok.String() + " " + x.args[1].str(d+1) + ")"
	case ONot:
		return "!" + x.args[0].str(d+1)
	case OLen:
		return "len(" + as() + ")"
	case OSlice:
		hi := ""
		if x.args[2].op != ONone {
			hi = x.args[2].str(d + 1)
		}
		return x.args[0].str(d+1) + "[" + x.args[1].str(d+1) + ":" + hi + "]"
	case OIface, OConvert:
		return as()
	case OLookup:
		return x.args[0].str(d+1) + "[" + x.args[1].str(d+1) + "]"
	case OStruct:
		return x.name + "{" + as() + "}"
	case OField:
		return x.args[0].str(d+1) + fmt.Sprintf(".%d", x.idx)
	case OMake:
		return "make" + g + "(" + as() + ")"
	}
	return opNames[x.op] + g + "(" + as() + ")"
}

// contains reports whether y occurs in x.
func (x *Term) contains(y *Term) bool {
	if x == y {
		return true
	}
	for _, a := range x.args {
		if a.contains(y) {
			return true
		}
	}
	return false
}

// any reports whether pred holds of some subterm.
func (x *Term) any(pred func(*Term) bool) bool {
	if pred(x) {
		return true
	}
	for _, a := range x.args {
		if a.any(pred) {
			return true
		}
	}
	return false
}
