package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type

var intT types.Type = types.Typ[types.Int]
var errType types.Type = types.Universe.Lookup("error").Type()

func structUnder(T types.Type) (*types.Struct, bool) {
	st, ok := T.Underlying().(*types.Struct)
	return st, ok
}

func ptrTo(T types.Type) types.Type { return types.NewPointer(T) }

// fieldIndex finds a field of a struct type by name, -1 if absent.
func fieldIndex(T types.Type, name string) int {
	st, ok := structUnder(deref(T))
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// loadField reads x.name where base is a pointer to the struct.
func (s *State) loadField(base *Term, ptr types.Type, name string) *Term {
	i := fieldIndex(ptr, name)
	if i < 0 {
		return nil
	}
	st, _ := structUnder(deref(ptr))
	ft := st.Field(i).Type()
	return s.Load(s.sim.T.FieldAddr(base, i, deref(ptr), ptrTo(ft)), ft)
}

// fieldOf reads a field of a struct value.
func (s *State) fieldOf(x *Term, T types.Type, name string) *Term {
	i := fieldIndex(T, name)
	if i < 0 {
		return nil
	}
	st, _ := structUnder(T)
	return s.sim.T.Field(s.sim.expand(x, T), i, st.Field(i).Type())
}

func elemType(T types.Type) types.Type {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

const tokSUB = token.SUB

var ghostCtx = &Ctx{id: -1}

var ghostInt = types.NewNamed(types.NewTypeName(token.NoPos, nil, "ghostInt", nil), types.Typ[types.Int], nil)

// ghost is an integer cell of the analysis itself: loop invariants relate it to
// the program's variables.
func (s *State) ghost(name string) *Term {
	a := s.sim.T.Alloc(leafID{ctx: ghostCtx, at: "ghost", tag: name}, types.NewPointer(ghostInt))
	s.cl["ghost="+name] = a
	return a
}

func (s *State) ghostSet(name string, v *Term) { s.mem[s.ghost(name)] = v }
func (s *State) ghostGet(name string) *Term {
	if v, ok := s.mem[s.ghost(name)]; ok {
		return v
	}
	return s.sim.T.None
}

func isGhost(a *Term) bool {
	return a.op == OAllocAddr && a.leaf != nil && a.leaf.at == "ghost"
}

const tokEQL = token.EQL

type ssaFunction = ssa.Function

func zeroConst(c *ssa.Const) bool {
	return c.Value == nil || c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}
