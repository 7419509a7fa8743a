package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C02", Title: "secrets made by the crypto layer are fresh CSPRNG output", Run: runC02,
		Explanation: "DeriveKey, NewMasterKey, EncryptMasterKey and Encrypt are executed abstractly path by path. Every buffer filled by crypto/rand is tracked; on each successful exit the salt, master key and IVs returned (and every IV handed to a block mode) must lie in a buffer allocated by that call, filled over its full length by the CSPRNG with the error ruled out, and not written since."})
}

// rndModel tracks which buffers hold fresh random bytes.
type rndModel struct {
	r *Run
}

func (a *rndModel) client() *Client {
	c := &Client{Name: "rnd", Houdini: true, KeepFacts: true}
	c.Inline = func(f *ssa.Function) (bool, bool) {
		switch fnName(f) {
		case "pkcs7.Pad", "pkcs7.Unpad":
			return false, true
		}
		return true, true
	}
	c.Track = func(string) bool { return true }
	fill := func(s *State, buf, res *Term) {
		T := s.sim.T
		b := bufOf(buf)
		full := buf == b || buf.op == OSlice && mustInt(buf.args[1]) == 0 && (buf.args[2].op == ONone || s.eqInt(buf.args[2], T.Len(b)))
		if full {
			s.cl["rnd:"+tid(b)] = T.Tuple(b, res)
		} else {
			k := "part:" + tid(b)
			cur := []*Term{}
			if x, ok := s.cl[k]; ok {
				cur = x.args
			}
			hi := s.sim.T.Len(b)
			if buf.op == OSlice && buf.args[2].op != ONone {
				hi = buf.args[2]
			}
			lo := T.Zero
			if buf.op == OSlice {
				lo = buf.args[1]
			}
			s.cl[k] = T.Tuple(append(append([]*Term(nil), cur...), lo, hi, res)...)
			// complete?
			pos := T.Zero
			ps := s.cl[k].args
			for i := 0; i+2 < len(ps); i += 3 {
				for j := 0; j+2 < len(ps); j += 3 {
					if s.eqInt(ps[j], pos) {
						pos = ps[j+1]
						break
					}
				}
			}
			if s.eqInt(pos, T.Len(b)) {
				var rs []*Term
				for i := 2; i < len(ps); i += 3 {
					rs = append(rs, ps[i])
				}
				s.cl["rnd:"+tid(b)] = T.Tuple(append([]*Term{b}, rs...)...)
			}
		}
	}
	c.OnResult = func(ev *CallEv, res *Term) {
		switch ev.Name {
		case "crypto/rand.Read":
			fill(ev.S, ev.Args[0], res)
		case "io.ReadFull":
			if isRandReader(ev.Args[0]) {
				fill(ev.S, ev.Args[1], res)
			}
		case "io.ReadAtLeast":
			if isRandReader(ev.Args[0]) && ev.S.eqInt(ev.Args[2], ev.S.sim.T.Len(ev.Args[1])) {
				fill(ev.S, ev.Args[1], res)
			}
		case "(io.Reader).Read":
			if isRandReader(ev.Args[0]) {
				fill(ev.S, ev.Args[1], res)
			}
		}
	}
	dirty := func(s *State, dst *Term) {
		b := bufOf(dst)
		delete(s.cl, "rnd:"+tid(b))
		delete(s.cl, "part:"+tid(b))
	}
	c.OnCopy = func(s *State, dst, src *Term, in ssa.Instruction) {
		b := bufOf(dst)
		dirty(s, dst)
		// a full copy of fresh randomness stays fresh
		if x, ok := s.cl["rnd:"+tid(src)]; ok && dst == b && s.eqInt(s.sim.T.Len(b), s.sim.T.Len(src)) {
			s.cl["rnd:"+tid(b)] = x
		}
	}
	c.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr {
			dirty(s, addr.args[0])
		}
	}
	return c
}

func isRandReader(x *Term) bool {
	return x.any(func(y *Term) bool {
		if y.op == OGlobal {
			if g, ok := y.obj.(*ssa.Global); ok {
				return g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader"
			}
		}
		return false
	})
}

// fresh: x holds only fresh random bytes; why says what is wrong.
func (a *rndModel) fresh(s *State, x *Term, whole bool) (why string) {
	T := s.sim.T
	b := bufOf(x)
	if x.op == OCall || x.op == OExtract {
		if c := callOf(x); c.name == "bytes.Clone" || c.name == "slices.Clone" {
			return a.fresh(s, c.args[0], whole)
		}
	}
	if x.op == OAppendS && (x.args[0].op == ONil || T.Len(x.args[0]) == T.Zero) {
		return a.fresh(s, x.args[1], whole)
	}
	st, ok := s.cl["rnd:"+tid(b)]
	if !ok {
		return "it is not filled, over its full length, by crypto/rand on this path (or is overwritten afterwards): " + short(x)
	}
	if st.args[0].op != OMake && st.args[0].op != OAllocAddr && !(st.args[0].op == OSlice) {
		if st.args[0].op == OParam || st.args[0].op == OGlobal || st.args[0].op == OLoad {
			return "the buffer is shared with other calls"
		}
	}
	for _, res := range st.args[1:] {
		c := callOf(res)
		if c.name == "crypto/rand.Read" {
			continue // never fails, always fills (Go 1.24+)
		}
		errT := T.Extract(res, 1, errType)
		if !s.IsNil(errT) {
			return "the error of reading random bytes is not ruled out"
		}
	}
	if whole && x != b && !(x.op == OSlice && mustInt(x.args[1]) == 0 && (x.args[2].op == ONone || s.eqInt(x.args[2], T.Len(b)))) {
		// a region of a fresh buffer is still fresh
		_ = whole
	}
	return ""
}

func runC02(r *Run) {
	r.Rule("fresh: the salt of DeriveKey, master key and IV of NewMasterKey, and the IV of EncryptMasterKey are, on every successful exit, a buffer made by that call and filled completely by crypto/rand, unmodified since")
	r.Rule("fresh-iv: on every path of EncryptMasterKey and of single-user Encrypt every IV handed to a block mode is part of such a buffer")
	r.Rule("distinct: master key and IV of NewMasterKey do not share a buffer region")
	r.Rule("salt-bound: the key DeriveKey returns is derived by scrypt (N>=2^17, r>=8) from the passphrase argument and the very salt it returns")
	a := &rndModel{r: r}
	run := func(name string, exit func(fn *ssa.Function, s *State, res []*Term, where string)) {
		fn := r.Anchor(name)
		if fn == nil {
			return
		}
		c := a.client()
		m := newSim(r.P, c)
		m.AxiomNonNeg = configSizes
		m.AxiomFacts = func(s *State, x *Term) []Lin {
			if x.op == OCall && x.name == "(crypto/cipher.Block).BlockSize" {
				return []Lin{{c: -1, v: map[*Term]int64{x: 1}}}
			}
			return nil
		}
		var nusers *Term
		c.OnCall = func(ev *CallEv) {
			switch {
			case strings.HasPrefix(ev.Name, "crypto/cipher.New") && len(ev.Args) == 2 && (name == "crypt.EncryptMasterKey" || name == "crypt.Encrypt"):
				if name == "crypt.Encrypt" {
					nusers = nusersOf(ev.S, fn)
					if nusers == nil || !ev.S.Known(ev.S.sim.T.Eq(nusers, ev.S.sim.T.Zero), true) {
						// multi-user: the IV belongs to the master key
						return
					}
				}
				where := r.P.instrPos(ev.Instr)
				r.Oblige("fresh-iv", name+" "+where)
				if why := a.fresh(ev.S, ev.Args[1], false); why != "" {
					r.Violate("fresh-iv", name+"|"+fnName(ev.Ctx.fn), where, "an IV used for encryption is not fresh: "+why, ev.S.Trail(12))
				}
			case ev.Name == "(crypto/cipher.BlockMode).CryptBlocks":
				b := bufOf(ev.Args[1])
				delete(ev.S.cl, "rnd:"+tid(b))
			}
		}
		c.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
			if s.NonNil(res[len(res)-1]) || s.IsNil(res[0]) || res[0].op == ONil || res[0].op == OZero {
				return
			}
			exit(fn, s, res, r.P.instrPos(in))
		}
		m.Run(fn, nil)
		r.absorb(m, name)
	}
	check := func(name, what string, s *State, x *Term, where string) {
		r.Oblige("fresh", name+" "+what+" at "+where+" "+lastCtx(s))
		if why := a.fresh(s, x, true); why != "" {
			r.Violate("fresh", name+"|"+what, where, "the "+what+" returned by "+name+" is not fresh randomness: "+why, s.Trail(12))
		}
	}
	run("crypt.DeriveKey", func(fn *ssa.Function, s *State, res []*Term, where string) {
		check("DeriveKey", "salt", s, res[1], where)
		r.Oblige("salt-bound", where)
		c := callOf(res[0])
		bad := ""
		if !strings.HasSuffix(c.name, "scrypt.Key") || len(c.args) < 6 {
			bad = "the key is not the result of scrypt: " + short(res[0])
		} else if c.args[0].op != OParam {
			bad = "the key is not derived from the passphrase argument"
		} else if bufOf(c.args[1]) != bufOf(res[1]) {
			bad = "the key is derived from another salt than the one returned"
		} else if !sameExtent(s, c.args[1], res[1]) {
			bad = "the key is derived from a part of the salt only"
		} else if n, ok := c.args[2].intVal(); !ok || n < 1<<17 {
			bad = "scrypt's cost parameter is below 2^17"
		} else if n, ok := c.args[3].intVal(); !ok || n < 8 {
			bad = "scrypt's block size parameter is below 8"
		}
		if bad != "" {
			r.Violate("salt-bound", "DeriveKey", where, bad, s.Trail(10))
		}
	})
	run("crypt.NewMasterKey", func(fn *ssa.Function, s *State, res []*Term, where string) {
		check("NewMasterKey", "master key", s, res[0], where)
		check("NewMasterKey", "IV", s, res[1], where)
		r.Oblige("distinct", where)
		if bufOf(res[0]) == bufOf(res[1]) {
			x, y := res[0], res[1]
			ok := false
			if x.op == OSlice && y.op == OSlice {
				ok = x.args[2].op != ONone && s.ProveLE(x.args[2], y.args[1]) || y.args[2].op != ONone && s.ProveLE(y.args[2], x.args[1])
			}
			if !ok {
				r.Violate("distinct", "NewMasterKey", where, "the master key and its IV share a buffer", s.Trail(10))
			}
		}
	})
	run("crypt.EncryptMasterKey", func(fn *ssa.Function, s *State, res []*Term, where string) {
		check("EncryptMasterKey", "IV", s, res[1], where)
	})
	run("crypt.Encrypt", func(fn *ssa.Function, s *State, res []*Term, where string) {})
	r.Need("fresh", 4)
	r.Need("fresh-iv", 2)
	r.Need("salt-bound", 1)
}

var _ = fmt.Sprint

// sameExtent: two slices of one buffer cover the same part of it.
func sameExtent(s *State, x, y *Term) bool {
	T := s.sim.T
	ends := func(x *Term) (lo, hi *Term) {
		if x.op == OSlice {
			lo, hi = x.args[1], T.Len(bufOf(x))
			if x.args[2].op != ONone {
				hi = x.args[2]
			}
			return lo, hi
		}
		return T.Zero, T.Len(x)
	}
	if x == y {
		return true
	}
	xl, xh := ends(x)
	yl, yh := ends(y)
	return s.eqInt(xl, yl) && s.eqInt(xh, yh)
}

// nusersOf is Params.NUsers of Encrypt's argument.
func nusersOf(s *State, fn *ssa.Function) *Term {
	for i, p := range fn.Params {
		if fieldIndex(p.Type(), "NUsers") >= 0 {
			return s.loadField(s.sim.T.Param(i, fn, p.Type()), p.Type(), "NUsers")
		}
	}
	return nil
}
